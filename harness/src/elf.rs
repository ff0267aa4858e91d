//! Writes small 32-bit little-endian RISC-V executables, so that the loader can
//! be driven with arbitrary layouts.
#[derive(Clone, Debug)]
pub struct Seg {
    pub kind: u32,
    pub flags: u32,
    pub vaddr: u32,
    pub data: Vec<u8>,
    pub memsz: u32,
}
pub const PT_LOAD: u32 = 1;
pub const X: u32 = 1;
pub const W: u32 = 2;
pub const R: u32 = 4;

impl Seg {
    pub fn load(flags: u32, vaddr: u32, data: Vec<u8>, memsz: u32) -> Seg {
        Seg { kind: PT_LOAD, flags, vaddr, data, memsz }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Image {
    pub segs: Vec<Seg>,
    /// name, address, size
    pub sections: Vec<(String, u32, u32)>,
    /// Unused bytes between the parts of the file.
    pub padding: usize,
}

pub fn text(rom: &[u32]) -> Seg {
    let d: Vec<u8> = rom.iter().flat_map(|w| w.to_le_bytes()).collect();
    let n = d.len() as u32;
    Seg::load(R | X, 0, d, n)
}

impl Image {
    pub fn build(&self) -> Vec<u8> {
        let mut f = vec![0u8; 52];
        let phoff = 52;
        f.resize(52 + 32 * self.segs.len(), 0);
        let mut offs = vec![];
        for s in &self.segs {
            f.extend(std::iter::repeat(0xA5).take(self.padding));
            offs.push(f.len() as u32);
            f.extend_from_slice(&s.data);
        }
        f.extend(std::iter::repeat(0xA5).take(self.padding));
        let mut names = vec![0u8];
        let mut hdrs: Vec<[u32; 10]> = vec![[0; 10]];
        for (n, a, sz) in &self.sections {
            let at = names.len() as u32;
            names.extend_from_slice(n.as_bytes());
            names.push(0);
            let off = self
                .segs
                .iter()
                .zip(&offs)
                .find(|(s, _)| s.kind == PT_LOAD && *a >= s.vaddr && *a - s.vaddr < s.memsz.max(1))
                .map(|(s, o)| o + (a - s.vaddr).min(s.data.len() as u32))
                .unwrap_or(52);
            hdrs.push([at, 1, 3, *a, off, *sz, 0, 0, 4, 0]);
        }
        let at = names.len() as u32;
        names.extend_from_slice(b".shstrtab\0");
        let stroff = f.len() as u32;
        hdrs.push([at, 3, 0, 0, stroff, names.len() as u32, 0, 0, 1, 0]);
        f.extend_from_slice(&names);
        while f.len() % 4 != 0 {
            f.push(0);
        }
        let shoff = f.len() as u32;
        for h in &hdrs {
            for w in h {
                f.extend_from_slice(&w.to_le_bytes());
            }
        }
        f[0..16].copy_from_slice(&[0x7F, b'E', b'L', b'F', 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
        let mut p = 16;
        let mut half = |f: &mut Vec<u8>, v: u32| {
            f[p..p + 2].copy_from_slice(&(v as u16).to_le_bytes());
            p += 2;
        };
        half(&mut f, 2);
        half(&mut f, 243);
        for w in [1u32, 0, phoff, shoff, 0] {
            half(&mut f, w & 0xFFFF);
            half(&mut f, w >> 16);
        }
        for v in [52, 32, self.segs.len() as u32, 40, hdrs.len() as u32, hdrs.len() as u32 - 1] {
            half(&mut f, v);
        }
        for (k, s) in self.segs.iter().enumerate() {
            let ws = [s.kind, offs[k], s.vaddr, s.vaddr, s.data.len() as u32, s.memsz, s.flags, 4];
            for (j, w) in ws.iter().enumerate() {
                let q = phoff as usize + 32 * k + 4 * j;
                f[q..q + 4].copy_from_slice(&w.to_le_bytes());
            }
        }
        f
    }
}

/// One text segment and a RAM image whose whole extent is both input and output tape.
pub fn whole_ram(rom: &[u32], ram: &[u8], base: u32) -> Vec<u8> {
    Image {
        segs: vec![text(rom), Seg::load(R | W, base, ram.to_vec(), ram.len() as u32)],
        sections: vec![
            (".text".into(), 0, rom.len() as u32 * 4),
            (".inpdata".into(), base, ram.len() as u32),
            (".outdata".into(), base, ram.len() as u32),
        ],
        padding: 0,
    }
    .build()
}

/// An executable as the ELF specification reads it.
pub struct Loaded {
    pub text: Vec<u8>,
    /// address, file bytes
    pub data: Vec<(u32, Vec<u8>)>,
    /// name, address, size, allocated
    sections: Vec<(String, u32, u32, bool)>,
}

impl Loaded {
    pub fn parse(f: &[u8]) -> Result<Loaded, String> {
        let w = |at: u32| -> Result<u32, String> {
            let at = at as usize;
            f.get(at..at + 4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).ok_or("truncated executable".into())
        };
        let half = |at: u32| -> Result<u32, String> { w(at & !3).map(|v| if at & 2 == 0 { v & 0xFFFF } else { v >> 16 }) };
        if f.get(..6) != Some(&[0x7F, b'E', b'L', b'F', 1, 1]) {
            return Err("not a 32-bit little-endian executable".into());
        }
        if half(18)? != 243 || w(24)? != 0 {
            return Err(format!("machine {}, entry {:#x}", half(18)?, w(24)?));
        }
        let bytes = |off: u32, n: u32| f.get(off as usize..(off as usize + n as usize)).map(|s| s.to_vec()).ok_or("truncated executable".to_string());
        let (phoff, phsize, phnum) = (w(28)?, half(42)?, half(44)?);
        let mut l = Loaded { text: vec![], data: vec![], sections: vec![] };
        for k in 0..phnum {
            let p = phoff + k * phsize;
            if w(p)? != PT_LOAD {
                continue;
            }
            let (off, vaddr, filesz, flags) = (w(p + 4)?, w(p + 8)?, w(p + 16)?, w(p + 24)?);
            if flags & X != 0 && vaddr == 0 {
                l.text = bytes(off, filesz)?;
            } else if filesz > 0 {
                l.data.push((vaddr, bytes(off, filesz)?));
            }
        }
        let (shoff, shsize, shnum, stridx) = (w(32)?, half(46)?, half(48)?, half(50)?);
        let stroff = w(shoff + stridx * shsize + 16)?;
        for k in 0..shnum {
            let s = shoff + k * shsize;
            let at = (stroff + w(s)?) as usize;
            let name: String = f[at..].iter().take_while(|b| **b != 0).map(|b| *b as char).collect();
            l.sections.push((name, w(s + 12)?, w(s + 20)?, w(s + 8)? & 2 != 0));
        }
        Ok(l)
    }
    pub fn section(&self, name: &str) -> Result<(u32, u32), String> {
        self.sections.iter().find(|s| s.0 == name).map(|s| (s.1, s.2)).ok_or(format!("no section {name}"))
    }
    /// End of everything placed at or above `base`.
    pub fn alloc_end(&self, base: u32) -> u32 {
        self.sections.iter().filter(|s| s.3 && s.1 >= base).map(|s| s.1 + s.2).max().unwrap_or(base)
    }
}
