//! What E10 observes about keys: the secret of a VM, the errors of its evaluation keys, and what
//! the ciphertexts handed to bootstrapping show without the key.
use crate::{
    ctx::{scratch, seed32, Ctx, Src},
    report::Report,
    rng::Rng,
};
use fhevm::{
    keys::VMKeys,
    parameters::CryptographicParameters,
    verif_hooks::{Ct, Keys, Sk, BE},
};
use poulpy_core::{
    layouts::{
        Base2K, Degree, GGLWEInfos, GGLWEToRef, GLWEAutomorphismKey, GLWEInfos, GLWEPlaintext, GLWESecret, LWEInfos, TorusPrecision, GLWE, LWE,
    },
    GGLWENoise,
};
use poulpy_hal::{
    api::{ScratchOwnedAlloc, ScratchOwnedBorrow},
    layouts::{ReaderFrom, ScalarZnx, ScratchOwned, WriterTo, ZnxView, ZnxViewMut},
    source::Source,
};
use std::collections::HashMap;
use poulpy_schemes::bin_fhe::{bdd_arithmetic::BDDKeyHelper, blind_rotation::CGGI};

/// The coefficients of a secret, read off decryptions of (0, .., 1, .., 0).
pub fn secret(params: &CryptographicParameters<BE>, sk: &Sk) -> Vec<Vec<i64>> {
    let infos = params.ram_infos();
    let mut sc = scratch(1);
    (0..usize::from(infos.rank()))
        .map(|c| {
            let mut ct = GLWE::alloc_from_infos(&infos);
            ct.data_mut().at_mut(c + 1, 0)[0] = 1;
            let mut pt = GLWEPlaintext::alloc_from_infos(&infos);
            ct.decrypt(params.module(), &mut pt, sk, sc.borrow());
            pt.data().at(0, 0).to_vec()
        })
        .collect()
}

/// A ternary secret of density one half, with unrelated components.
pub fn judge_secret(rep: &Report, who: &str, s: &[Vec<i64>]) {
    for (c, v) in s.iter().enumerate() {
        let n = v.len() as f64;
        let nz = v.iter().filter(|x| **x != 0).count() as f64;
        let plus = v.iter().filter(|x| **x > 0).count() as f64;
        rep.eval(Some(&format!("secret/{who}/{c}")));
        rep.count("secret_coefficients", v.len() as u64);
        rep.gauge_max("secret_density", nz / n);
        if v.iter().any(|x| x.abs() > 1) || (nz / n - 0.5).abs() > 0.11 || (plus / nz.max(1.0) - 0.5).abs() > 0.15 {
            rep.violation(&format!("{who}:secret"), format!("component {c} of the secret: {nz} of {n} coefficients are not zero, {plus} positive, largest {:?}", v.iter().map(|x| x.abs()).max()));
            return;
        }
        // Repetition inside the secret, at any power of two.
        let mut lag = 1;
        while lag < v.len() {
            let agree = (0..v.len() - lag).filter(|k| v[*k] == v[*k + lag]).count() as f64 / (v.len() - lag) as f64;
            if v.len() - lag >= 256 && agree > 0.6 {
                rep.violation(&format!("{who}:secret"), format!("component {c} of the secret repeats after {lag} coefficients ({:.0}%)", 100.0 * agree));
                return;
            }
            lag *= 2;
        }
        for (d, w) in s.iter().enumerate().take(c) {
            let agree = v.iter().zip(w).filter(|(x, y)| x == y).count() as f64 / n;
            if agree > 0.6 {
                rep.violation(&format!("{who}:secret"), format!("components {d} and {c} of the secret agree in {:.0}% of the coefficients", 100.0 * agree));
                return;
            }
        }
    }
}

/// The input of bootstrapping for each bit of `c`: (body, mask) on the torus.
fn lwe_bits(params: &CryptographicParameters<BE>, keys: &Keys, c: &Ct, bits: usize, sc: &mut ScratchOwned<BE>) -> Vec<(f64, Vec<i64>)> {
    let (_, ksg, ksl) = keys.get_cbt_key();
    (0..bits)
        .map(|b| {
            let mut lwe = LWE::alloc(Degree(params.n_glwe().0 - 1), Base2K(15), TorusPrecision(30));
            c.get_bit_lwe(params.module(), b, &mut lwe, ksg, ksl, sc.borrow());
            let body: f64 = (0..lwe.size()).map(|i| lwe.data().at(0, i)[0] as f64 * 2f64.powi(-15 * (i as i32 + 1))).sum();
            (body, lwe.data().at(0, 0)[1..].to_vec())
        })
        .collect()
}

/// Ciphertexts switched to the small key must not show their content in the body.
pub fn judge_small_key(rep: &Report, who: &str, params: &CryptographicParameters<BE>, sk: &Sk, keys: &Keys, seed: u64) {
    let mut src = Src::new(seed, 91_000);
    let mut sc = scratch(1);
    let (mut re, mut im, mut n) = ([0f64; 2], [0f64; 2], [0f64; 2]);
    let mut zero = 0usize;
    let mut r = Rng::new(seed, "small");
    for _ in 0..6 {
        let v = r.u32();
        let mut c = Ct::alloc_from_infos(&params.fhe_uint_infos());
        c.encrypt_sk(params.module(), v, sk, &mut src.xa, &mut src.xe, sc.borrow());
        for (b, (body, mask)) in lwe_bits(params, keys, &c, 32, &mut sc).into_iter().enumerate() {
            let k = (v >> b & 1) as usize;
            let a = 2.0 * std::f64::consts::PI * body;
            re[k] += a.cos();
            im[k] += a.sin();
            n[k] += 1.0;
            zero += mask.iter().all(|x| *x == 0) as usize;
        }
    }
    rep.count("small_key_bodies", 192);
    rep.eval(Some(&format!("small/{who}/{seed}")));
    for k in 0..2 {
        let m = (re[k] * re[k] + im[k] * im[k]).sqrt() / n[k];
        rep.gauge_max("body_concentration", m);
        // About 1/sqrt(n) = 0.1 when the body is uniform, 1 when it is the message.
        if m > 0.5 || zero > 0 {
            rep.violation(&format!("{who}:small_key"), format!("{} encryptions of {k} under the small key: their bodies alone are concentrated ({m:.2}; uniform would be about {:.2}), {zero} masks are zero", n[k], 1.0 / n[k].sqrt()));
            return;
        }
    }
}

fn apply(v: &[i64], g: i64) -> Vec<i64> {
    let n = v.len() as i64;
    let mut o = vec![0; v.len()];
    for (k, x) in v.iter().enumerate() {
        let e = (k as i64 * g).rem_euclid(2 * n);
        if e < n {
            o[e as usize] += x;
        } else {
            o[(e - n) as usize] -= x;
        }
    }
    o
}

fn prepared(params: &CryptographicParameters<BE>, like: &GLWESecret<Vec<u8>>, s: &[Vec<i64>]) -> Sk {
    let mut b = vec![];
    like.write_to(&mut b).unwrap();
    let len: usize = s.iter().map(|v| v.len() * 8).sum();
    b.truncate(b.len() - len);
    for x in s.iter().flatten() {
        b.extend_from_slice(&x.to_le_bytes());
    }
    let mut o = GLWESecret::alloc(params.n_glwe(), params.rank());
    o.read_from(&mut &b[..]).expect("a serialized secret");
    let mut p = Sk::alloc(params.module(), params.rank());
    p.prepare(params.module(), &o);
    p
}

/// Errors of the memory-access keys, and randomness drawn for the other evaluation keys.
pub fn keys(rep: &Report, ctx: &Ctx, seed: u64) {
    let params = &ctx.params;
    let module = ctx.module();
    let mut sk = GLWESecret::alloc(params.n_glwe(), params.rank());
    sk.fill_ternary_prob(0.5, &mut Source::new(seed32(seed, 9)));
    let make = |t: u64| {
        let mut xa = Source::new(seed32(seed, 2 * t + 100));
        let mut xe = Source::new(seed32(seed, 2 * t + 101));
        let k: VMKeys<Vec<u8>, CGGI> = VMKeys::encrypt_sk(params, &ctx.sk_lwe, &sk, &mut xa, &mut xe);
        (k, xa, xe)
    };
    let (a, mut xa, mut xe) = make(1);
    let (b, _, _) = make(2);
    // (1) Errors of the memory-access keys.
    let mut p = Sk::alloc(module, params.rank());
    p.prepare(module, &sk);
    let s = secret(params, &p);
    let mut want = ScalarZnx::alloc(s[0].len(), s.len());
    for (c, v) in s.iter().enumerate() {
        want.at_mut(c, 0).copy_from_slice(v);
    }
    let infos = params.evk_ram_infos();
    let level = 3.2f64.log2() - f64::from(infos.k().0);
    let mut sc: ScratchOwned<BE> = ScratchOwned::alloc(1 << 24);
    let n2 = 2 * s[0].len() as i64;
    for (g, key) in a.evk_ram() {
        // The key is made under the inverse image of the secret.
        let inv = (1..n2).step_by(2).find(|x| (x * g).rem_euclid(n2) == 1).unwrap();
        let under = prepared(params, &sk, &s.iter().map(|v| apply(v, inv)).collect::<Vec<_>>());
        let rows = usize::from(key.dnum());
        for row in 0..rows {
            for col in 0..s.len() {
                let v = module.gglwe_noise(&key.to_ref(), row, col, &want, &under, sc.borrow()).std().log2();
                rep.count("key_errors_measured", 1);
                rep.eval(Some(&format!("key/{g}/{row}/{col}/{seed}")));
                rep.gauge_max("log2_key_error_above_level", v - level);
                rep.gauge_max("log2_key_error_below_level", level - v);
                if !((v - level).abs() < 1.0) {
                    rep.violation("key:noise", format!("key for automorphism {g}, row {row}, column {col}: error 2^{v:.2}, expected 2^{level:.2}"));
                    return;
                }
            }
        }
    }
    // Made again with the same masks and other errors, the keys differ by errors: none of them may be
    // the same, within a key, between keys or between the two sets.
    let again: VMKeys<Vec<u8>, CGGI> =
        VMKeys::encrypt_sk(params, &ctx.sk_lwe, &sk, &mut Source::new(seed32(seed, 102)), &mut Source::new(seed32(seed, 777)));
    let base = infos.base2k().0;
    let mut seen = HashMap::new();
    for (g, key) in a.evk_ram() {
        let other = &again.evk_ram()[g];
        for row in 0..usize::from(key.dnum()) {
            for col in 0..s.len() {
                let (x, y) = (key.to_ref(), other.to_ref());
                let (x, y) = (x.at(row, col), y.at(row, col));
                let size = x.size();
                let d: Vec<i64> = (0..s[0].len())
                    .map(|j| {
                        let v = (0..size).fold(0i64, |v, l| (v << base).wrapping_add(x.data().at(0, l)[j] - y.data().at(0, l)[j]));
                        let bits = 64 - base * size as u32;
                        v << bits >> bits
                    })
                    .collect();
                for (c, run) in d.chunks(32).enumerate() {
                    rep.count("key_error_runs", 1);
                    if run.iter().all(|v| *v == 0) {
                        rep.violation("key:errors", format!("key for automorphism {g}, row {row}, column {col}: the errors from coefficient {} on do not depend on the source given", 32 * c));
                        return;
                    }
                    if let Some((h, r, k)) = seen.insert(run.to_vec(), (*g, row, col)) {
                        rep.violation("key:errors", format!("the keys for automorphism {g}, row {row}, column {col} and {h}, {r}, {k} have the same errors"));
                        return;
                    }
                }
            }
        }
    }
    // (2) The other evaluation keys take randomness from the sources given.
    {
        let mut xa1 = Source::new(seed32(seed, 102));
        let mut xe1 = Source::new(seed32(seed, 103));
        let mut k = GLWEAutomorphismKey::alloc_from_infos(&infos);
        let mut sc: ScratchOwned<BE> = ScratchOwned::alloc(1 << 24);
        for g in a.evk_ram().keys() {
            k.encrypt_sk(module, *g, &sk, &mut xa1, &mut xe1, sc.borrow());
        }
        rep.count("source_positions", 2);
        for (n, used, only) in [("mask", &mut xa, &mut xa1), ("error", &mut xe, &mut xe1)] {
            if used.new_seed() == only.new_seed() {
                rep.violation("key:source", format!("the bootstrapping keys draw nothing from the {n} source"));
            }
        }
    }
    // (3) Keys made from different sources switch to different ciphertexts.
    let mut src = Src::new(seed, 92_000);
    let mut c = ctx.ct();
    c.encrypt_sk(module, 0x1234_5678, &p, &mut src.xa, &mut src.xe, sc.borrow());
    let outs: Vec<Vec<(f64, Vec<i64>)>> = [&a, &b]
        .iter()
        .map(|k| {
            let mut kp = Keys::alloc(params);
            kp.prepare(module, *k, sc.borrow());
            judge_small_key(rep, "keys", params, &p, &kp, seed);
            lwe_bits(params, &kp, &c, 4, &mut sc)
        })
        .collect();
    rep.count("key_pairs", 1);
    if outs[0].iter().zip(&outs[1]).any(|(x, y)| x.1 == y.1) {
        rep.violation("key:reuse", "two sets of evaluation keys made from different sources contain the same key-switching key".into());
    }
}
