PRE = r'''
#![allow(unused)]
use bls12_381::{ff::{Field, PrimeField}, group::{Group, Curve}, G1Point, G1Projective, Scalar};
use polynomial::domain::Domain;
use rust_eth_kzg::*;
type Ctx = DASContext;
fn rev<T>(v: &mut [T]) { let n = v.len(); let b = n.trailing_zeros(); for i in 0..n { let j = ((i as u32).reverse_bits() >> (32 - b)) as usize; if i < j { v.swap(i, j) } } }
/// the blob of a polynomial in coefficient form
fn blob(p: &[Scalar]) -> Vec<u8> { let mut e = Domain::new(4096).fft_scalars(p.to_vec()); rev(&mut e); e.iter().flat_map(|x| x.to_bytes_be()).collect() }
fn sc(i: u64) -> Scalar { Scalar::from(i * 7919 + 13).pow_vartime([5u64]) + Scalar::from(i).pow_vartime([1u64 << 40]) }
fn ctx() -> Ctx { DASContext::default() }
fn b(v: &[u8]) -> &[u8; 131072] { v.try_into().unwrap() }
fn ts() -> TrustedSetup { TrustedSetup::default() }
fn g1m(t: &TrustedSetup, i: usize) -> G1Point { let b: [u8; 48] = hex::decode(&t.g1_monomial[i][2..]).unwrap().try_into().unwrap(); Option::from(G1Point::from_compressed(&b)).unwrap() }
fn commit_def(t: &TrustedSetup, p: &[Scalar]) -> [u8; 48] { let mut a = G1Projective::identity(); for (i, c) in p.iter().enumerate() { if *c != Scalar::ZERO { a += G1Projective::from(g1m(t, i)) * c } } a.to_affine().to_compressed() }
fn must(c: bool, m: &str) { if !c { println!("WRONG: {m}"); std::process::exit(1) } }
'''
