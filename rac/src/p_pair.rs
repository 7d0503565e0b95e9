//! V12: the verdict against Groth16 keys whose trapdoor is known: whether the equation holds is decided on the exponents
use crate::harness::*;
use crate::env::guarded;
use crate::{ck, say};
use ark_bn254::{Bn254, Fq12, Fq2, Fr, G1Affine, G1Projective, G2Affine, G2Projective};
use ark_ec::bn::G2Prepared;
use ark_ec::{AffineCurve, PairingEngine, ProjectiveCurve};
use ark_ff::{Field, One, PrimeField, UniformRand, Zero};
use borsh::BorshSerialize;
use elusiv::fields::{Wrap, G1A, G2A};
use elusiv::proof::verifier::{prepare_public_inputs_instructions, verify_partial, VerificationStep};
use elusiv::proof::vkey::VerifyingKey;
use elusiv::state::proof::{VerificationAccount, VerificationState};
use elusiv::types::{RawU256, U256};
use elusiv_types::{ProgramAccount, SizedAccount};

pub fn props() -> Vec<(&'static str, Vec<(&'static str, Case)>)> {
    vec![("V12", vec![("verdict", v12 as Case)]), ("V13", vec![("execution", v13_run as Case)])]
}

/// the scheduled preparation, step by step with reloads, against the weighted sum computed on the exponents
fn v13_run(r: &mut Rng, t: &mut Tr) -> R {
    const N: usize = 6;
    static KEY: std::sync::OnceLock<(Vec<u8>, Vec<Fr>)> = std::sync::OnceLock::new();
    let (s, ic) = KEY.get_or_init(|| {
        let ic: Vec<Fr> = (0..=N as u64).map(|i| Fr::from(i * i * i + 0x1234_5678_9abc).inverse().unwrap()).collect();
        let k = |i: u64| Fr::from(0x7777_0001 * i + 5).inverse().unwrap();
        (source(k(1), k(2), k(3), k(4), &ic), ic)
    });
    let Some(vk) = VerifyingKey::new(s, N) else { ck!(false, "key", "a key of its size is not accepted"); unreachable!() };
    let v: Vec<U256> = (0..N)
        .map(|_| match r.below(5) {
            0 => [0; 32],
            1 => le(Fr::from(r.edge64())),
            2 => {
                let mut b = [0; 32];
                for _ in 0..r.below(33) {
                    b[r.below(32) as usize] = r.next() as u8
                }
                b
            }
            3 => [0xff; 32],
            _ => le(fr(r)),
        })
        .collect();
    let ins = prepare_public_inputs_instructions(&v, N);
    say!(t, "steps {ins:?} of inputs {v:?}");
    let mut d = vec![0u8; VerificationAccount::SIZE];
    {
        let mut acc = <VerificationAccount as ProgramAccount>::new(&mut d).unwrap();
        for (i, v) in v.iter().enumerate() {
            acc.set_public_input(i, &RawU256::new(*v));
        }
        ck!(acc.setup_public_inputs_instructions(&ins).is_ok(), "setup", "the schedule is refused");
        acc.set_state(&VerificationState::ProofSetup);
    }
    let mut done = 0;
    while done < ins.len() {
        let mut acc = <VerificationAccount as ProgramAccount>::new(&mut d).unwrap();
        for _ in 0..r.range(1, 3) {
            if done < ins.len() {
                ck!(matches!(acc.get_step(), VerificationStep::PublicInputPreparation), "early", "the preparation ends after {done} of {} steps", ins.len());
                let g = guarded(|| verify_partial(&mut acc, &vk, 6).map_err(|_| "an error"));
                ck!(matches!(g, Ok(Ok(None))), "step", "step {done} of {}: {g:?}", ins.len());
                done += 1;
            }
        }
    }
    let step = <VerificationAccount as ProgramAccount>::new(&mut d).unwrap().get_step();
    ck!(matches!(step, VerificationStep::CombinedMillerLoop), "late", "the preparation has not ended after its {} steps", ins.len());
    let want = v.iter().zip(&ic[1..]).fold(ic[0], |s, (x, c)| s + Fr::from_le_bytes_mod_order(x) * c);
    let mut b = vec![];
    G1A(g1(want).into_affine()).serialize(&mut b).unwrap();
    // the field is private: its bytes are in the account
    ck!(d.windows(b.len()).any(|w| w == b), "sum", "the prepared inputs are not the weighted sum of the inputs");
    t.mark();
    Ok(())
}

fn fr(r: &mut Rng) -> Fr {
    let mut b = [0u8; 64];
    for x in b.iter_mut() {
        *x = r.next() as u8
    }
    Fr::from_le_bytes_mod_order(&b)
}
fn g1(x: Fr) -> G1Projective {
    G1Affine::prime_subgroup_generator().mul(x)
}
fn g2(x: Fr) -> G2Projective {
    G2Affine::prime_subgroup_generator().mul(x)
}
fn le(x: Fr) -> U256 {
    let mut o = [0; 32];
    for (i, l) in x.into_repr().0.iter().enumerate() {
        o[i * 8..i * 8 + 8].copy_from_slice(&l.to_le_bytes())
    }
    o
}
/// the layout documented at VerifyingKey::new
fn source(alpha: Fr, beta: Fr, gamma: Fr, delta: Fr, ic: &[Fr]) -> Vec<u8> {
    let mut s = vec![];
    let ab: Fq12 = Bn254::pairing(g1(alpha), g2(beta));
    Wrap(ab).serialize(&mut s).unwrap();
    G1A(g1(ic[0]).into_affine()).serialize(&mut s).unwrap();
    let mut pts = vec![];
    for c in &ic[1..] {
        let mut base = g1(*c);
        for _ in 0..32 {
            let mut p = base;
            for _ in 0..255 {
                pts.push(p);
                p += base;
            }
            base = p;
        }
    }
    for p in G1Projective::batch_normalization_into_affine(&pts) {
        G1A(p).serialize(&mut s).unwrap();
    }
    for x in [gamma, delta] {
        let p = G2Prepared::<ark_bn254::Parameters>::from((-g2(x)).into_affine());
        for c in &p.ell_coeffs {
            let (a, b, c): (Fq2, Fq2, Fq2) = *c;
            for v in [a, b, c] {
                Wrap(v).serialize(&mut s).unwrap();
            }
        }
    }
    G1A(g1(alpha).into_affine()).serialize(&mut s).unwrap();
    for x in [beta, gamma, delta] {
        G2A(g2(x).into_affine()).serialize(&mut s).unwrap();
    }
    s
}

fn v12(r: &mut Rng, t: &mut Tr) -> R {
    let n = if r.chance(3, 4) { 1 } else { 2 };
    let (alpha, beta, gamma, delta) = (fr(r), fr(r), fr(r), fr(r));
    let mut ic: Vec<Fr> = (0..=n).map(|_| fr(r)).collect();
    let mut x: Vec<Fr> = (0..n)
        .map(|_| match r.below(4) {
            0 => Fr::zero(),
            1 => Fr::from(r.edge64()),
            _ => fr(r),
        })
        .collect();
    let sum = |ic: &[Fr], x: &[Fr]| x.iter().zip(&ic[1..]).fold(ic[0], |s, (x, c)| s + *x * c);
    let special = r.below(8);
    if special == 1 {
        // the prepared inputs are the zero point
        let s = sum(&ic, &x);
        ic[0] -= s;
    }
    let (mut a, mut b, mut c) = (fr(r), fr(r), fr(r));
    let p = sum(&ic, &x);
    match special {
        2 => {
            a = Fr::zero();
            c = -(alpha * beta + gamma * p) * delta.inverse().unwrap();
        }
        3 => {
            c = Fr::zero();
            b = (alpha * beta + gamma * p) * a.inverse().unwrap();
        }
        _ => c = (a * b - alpha * beta - gamma * p) * delta.inverse().unwrap(),
    }
    // an unrelated or slightly different statement or proof
    let flaw = if r.chance(1, 2) { 0 } else { 1 + r.below(6) };
    let one = Fr::one();
    match flaw {
        1 => {
            let i = r.below(n as u64) as usize;
            x[i] += if r.chance(1, 2) { one } else { fr(r) }
        }
        2 => a = -a,
        3 => b += one,
        4 => c += if r.chance(1, 2) { one } else { fr(r) },
        5 => c = -c,
        6 => {
            let i = r.below(n as u64) as usize;
            x[i] = -x[i]
        }
        _ => {}
    }
    let valid = a * b == alpha * beta + gamma * sum(&ic, &x) + delta * c;
    say!(t, "{n} inputs, special {special}, flaw {flaw}: valid {valid}");
    let s = source(alpha, beta, gamma, delta, &ic);
    let Some(vk) = VerifyingKey::new(&s, n) else { return Ok(()) };
    let v: Vec<U256> = x.iter().map(|x| le(*x)).collect();
    let mut d = vec![0u8; VerificationAccount::SIZE];
    {
        let mut acc = <VerificationAccount as ProgramAccount>::new(&mut d).unwrap();
        for (i, v) in v.iter().enumerate() {
            acc.set_public_input(i, &RawU256::new(*v));
        }
        let _ = acc.setup_public_inputs_instructions(&prepare_public_inputs_instructions(&v, n));
        acc.a.set(G1A(g1(a).into_affine()));
        acc.b.set(G2A(g2(b).into_affine()));
        acc.c.set(G1A(g1(c).into_affine()));
        acc.set_state(&VerificationState::ProofSetup);
    }
    // one instruction after the other, the account being read again in every transaction
    let mut verdict = None;
    let mut steps = 0;
    while verdict.is_none() && steps < 400 {
        let mut acc = <VerificationAccount as ProgramAccount>::new(&mut d).unwrap();
        for _ in 0..1 + r.below(6) {
            if verdict.is_none() && steps < 400 {
                steps += 1;
                match guarded(|| verify_partial(&mut acc, &vk, 6)) {
                    Ok(Ok(None)) => {}
                    Ok(Ok(Some(v))) => verdict = Some(v),
                    _ => verdict = Some(false),
                }
            }
        }
    }
    let kind = match special {
        1 => "prepared-inputs-zero",
        2 => "a-zero",
        3 => "c-zero",
        _ => "points",
    };
    if b.is_zero() {
        return Ok(());
    }
    ck!(verdict == Some(valid), &format!("verdict-{kind}-{}", if valid { "valid" } else { "invalid" }), "after {steps} steps the verdict is {verdict:?}, the equation gives {valid}");
    t.mark();
    Ok(())
}
#[allow(unused)]
fn _u<T: UniformRand>() {}
