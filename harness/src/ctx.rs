//! Cryptographic context shared by every encrypted check: one secret key, one
//! set of prepared evaluation keys, derived from the run seed.
use fhevm::{
    keys::{VMKeys, VMKeysPrepared},
    parameters::CryptographicParameters,
    verif_hooks::{Ct, CtPrep, Keys, Sk, BE},
};
use poulpy_core::layouts::{prepared::GLWESecretPrepared, GLWESecret, LWESecret};
use poulpy_hal::{
    api::{ScratchOwnedAlloc, ScratchOwnedBorrow},
    layouts::{Module, ScratchOwned},
    source::Source,
};
use poulpy_schemes::bin_fhe::blind_rotation::CGGI;

pub struct Ctx {
    pub params: CryptographicParameters<BE>,
    pub sk: Sk,
    pub sk_lwe: LWESecret<Vec<u8>>,
    pub keys: Keys,
}
// The prepared keys are read-only once built.
unsafe impl Sync for Ctx {}

pub fn seed32(seed: u64, tag: u64) -> [u8; 32] {
    let mut s = [0u8; 32];
    s[..8].copy_from_slice(&seed.to_le_bytes());
    s[8..16].copy_from_slice(&tag.to_le_bytes());
    s
}

/// Working memory that holds garbage in the part that is used.
pub fn scratch(threads: usize) -> ScratchOwned<BE> {
    let mut sc: ScratchOwned<BE> = ScratchOwned::alloc((1 << 24) * threads);
    let mut x = 0x9E37_79B9_7F4A_7C15u64;
    for b in sc.data.chunks_exact_mut(8).take(1 << 21) {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        b.copy_from_slice(&x.to_le_bytes());
    }
    sc
}

thread_local! {
    static SCRATCH: std::cell::RefCell<Option<ScratchOwned<BE>>> = const { std::cell::RefCell::new(None) };
}

/// Working memory of this worker, as the last job left it, for at least `threads` threads.
pub struct Borrowed(Option<ScratchOwned<BE>>);
pub fn reuse_scratch(threads: usize) -> Borrowed {
    let old = SCRATCH.with(|s| s.borrow_mut().take());
    Borrowed(Some(match old {
        Some(s) if s.data.len() >= threads << 24 => s,
        _ => scratch(threads),
    }))
}
impl std::ops::Deref for Borrowed {
    type Target = ScratchOwned<BE>;
    fn deref(&self) -> &ScratchOwned<BE> {
        self.0.as_ref().unwrap()
    }
}
impl std::ops::DerefMut for Borrowed {
    fn deref_mut(&mut self) -> &mut ScratchOwned<BE> {
        self.0.as_mut().unwrap()
    }
}
impl Drop for Borrowed {
    fn drop(&mut self) {
        SCRATCH.with(|s| *s.borrow_mut() = self.0.take());
    }
}

impl Ctx {
    pub fn new(seed: u64) -> Ctx {
        Self::with(CryptographicParameters::<BE>::new(), seed)
    }
    pub fn fast(seed: u64, n: usize) -> Ctx {
        Self::with(CryptographicParameters::<BE>::new_with_n_lwe(n), seed)
    }
    fn with(params: CryptographicParameters<BE>, seed: u64) -> Ctx {
        let mut xs = Source::new(seed32(seed, 1));
        let mut xa = Source::new(seed32(seed, 2));
        let mut xe = Source::new(seed32(seed, 3));
        let mut sc = scratch(1);
        let mut sk_glwe: GLWESecret<Vec<u8>> = GLWESecret::alloc(params.n_glwe(), params.rank());
        sk_glwe.fill_ternary_prob(0.5, &mut xs);
        let mut sk_lwe: LWESecret<Vec<u8>> = LWESecret::alloc(params.n_lwe());
        sk_lwe.fill_binary_block(params.lwe_block_size(), &mut xs);
        let mut sk: Sk = GLWESecretPrepared::alloc(params.module(), params.rank());
        sk.prepare(params.module(), &sk_glwe);
        let key: VMKeys<Vec<u8>, CGGI> =
            VMKeys::encrypt_sk(&params, &sk_lwe, &sk_glwe, &mut xa, &mut xe);
        let mut keys: Keys = VMKeysPrepared::alloc(&params);
        keys.prepare(params.module(), &key, sc.borrow());
        Ctx { params, sk, sk_lwe, keys }
    }
    pub fn module(&self) -> &Module<BE> {
        self.params.module()
    }
    pub fn ct(&self) -> Ct {
        Ct::alloc_from_infos(&self.params.fhe_uint_infos())
    }
    pub fn ct_prep(&self) -> CtPrep {
        CtPrep::alloc_from_infos(self.module(), &self.params.fhe_uint_prepared_infos())
    }
}

/// A pair of deterministic randomness sources for encryption.
pub struct Src {
    pub xa: Source,
    pub xe: Source,
}
impl Src {
    pub fn new(seed: u64, tag: u64) -> Src {
        Src {
            xa: Source::new(seed32(seed, tag.wrapping_mul(2) + 1000)),
            xe: Source::new(seed32(seed, tag.wrapping_mul(2) + 1001)),
        }
    }
}

pub fn enc(ctx: &Ctx, v: u32, src: &mut Src, sc: &mut ScratchOwned<BE>) -> Ct {
    let mut c = ctx.ct();
    c.encrypt_sk(ctx.module(), v, &ctx.sk, &mut src.xa, &mut src.xe, sc.borrow());
    c
}
pub fn enc_prep(ctx: &Ctx, v: u32, src: &mut Src, sc: &mut ScratchOwned<BE>) -> CtPrep {
    let mut c = ctx.ct_prep();
    c.encrypt_sk(ctx.module(), v, &ctx.sk, &mut src.xa, &mut src.xe, sc.borrow());
    c
}
pub fn dec(ctx: &Ctx, c: &Ct, sc: &mut ScratchOwned<BE>) -> u32 {
    c.decrypt(ctx.module(), &ctx.sk, sc.borrow())
}
