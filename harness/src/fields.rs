//! Prime fields the properties are quantified over: tiny ones (where adversarial search is
//! close to exhaustive and wrap-around is reachable), and the two real ones.
use ff::PrimeField;
use num_bigint::BigInt;

macro_rules! small_field {
    ($m:ident, $p:literal, $g:literal) => {
        mod $m {
            use ff::PrimeField;
            #[derive(PrimeField)]
            #[PrimeFieldModulus = $p]
            #[PrimeFieldGenerator = $g]
            #[PrimeFieldReprEndianness = "little"]
            pub struct E([u64; 1]);
        }
    };
}
small_field!(f8191, "8191", "17");
small_field!(f65537, "65537", "3");
small_field!(f31, "2147483647", "7");
small_field!(f61, "2305843009213693951", "37");

pub type F13 = f8191::E; // capacity 12
pub type F17 = f65537::E; // capacity 16
pub type F31 = f31::E; // capacity 30
pub type F61 = f61::E; // capacity 60
pub type FBls = validate_btc_header::util::scalar::Fr;
pub type FPal = pasta_curves::Fq; // scalar field of nova's PallasEngine

/// Modulus as an integer, computed from -1 (independent of the code under test).
pub fn modulus<F: PrimeField>() -> BigInt {
    to_int(&-F::ONE) + 1
}
/// Canonical representative (all the fields here have little-endian representations).
pub fn to_int<F: PrimeField>(f: &F) -> BigInt {
    BigInt::from_bytes_le(num_bigint::Sign::Plus, f.to_repr().as_ref())
}
/// Field element of any integer, reduced modulo p.
pub fn from_int<F: PrimeField>(n: &BigInt) -> F {
    use num_integer::Integer;
    let n = n.mod_floor(&modulus::<F>());
    let mut acc = F::ZERO;
    for b in n.to_bytes_be().1 {
        for k in (0..8).rev() {
            acc = acc.double();
            if b >> k & 1 == 1 {
                acc += F::ONE;
            }
        }
    }
    acc
}
pub fn pow2<F: PrimeField>(k: usize) -> F {
    let mut a = F::ONE;
    for _ in 0..k {
        a = a.double();
    }
    a
}
