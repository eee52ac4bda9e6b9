//! The Bowe-Hopwood Pedersen hash as an uninterpreted function of its parameters and input.
pub mod crh {
    use rand::Rng;
    pub type Error = Box<dyn std::error::Error>;
    pub trait FixedLengthCRH {
        const INPUT_SIZE_BITS: usize;
        type Output: Clone + Eq + std::fmt::Debug + Default;
        type Parameters: Clone + Default;
        fn setup<R: Rng>(r: &mut R) -> Result<Self::Parameters, Error>;
        fn evaluate(parameters: &Self::Parameters, input: &[u8]) -> Result<Self::Output, Error>;
    }
    /// circuits that compute a hash function
    pub trait FixedLengthCRHGadget<H: FixedLengthCRH, F: crate::ff::Field>: Sized {
        type OutputVar;
        type ParametersVar: crate::vars::AllocVar<H::Parameters, F> + Clone;
        fn evaluate(parameters: &Self::ParametersVar, input: &[crate::vars::UInt8<F>]) -> crate::r1cs::Result<Self::OutputVar>;
    }
    pub mod pedersen {
        pub trait Window: Clone {
            const WINDOW_SIZE: usize;
            const NUM_WINDOWS: usize;
        }
    }
    pub mod bowe_hopwood {
        use super::*;
        use crate::curves::ed_on_bw6_761::*;
        use std::marker::PhantomData;
        use symapi::Uf;
        pub const CHUNK_SIZE: usize = 3;
        #[derive(Clone, Debug)]
        pub struct CRH<P, W> {
            _p: PhantomData<(P, W)>,
        }
        /// what the generators were drawn from
        #[derive(Clone, Debug, Default)]
        pub struct Parameters<P> {
            pub seed: Vec<u8>,
            pub windows: (u64, u64),
            pub _p: PhantomData<P>,
        }
        pub fn value(seed: &[u8], w: (u64, u64), input: &[u8]) -> (Fq, Fq) {
            let f = |n: &str| Fq(Uf::new().bytes(seed).u64(w.0).u64(w.1).bytes(input).to_fe(n, 1));
            (f("pedersen_x"), f("pedersen_y"))
        }
        impl<P: Clone + Default + std::fmt::Debug, W: pedersen::Window> FixedLengthCRH for CRH<P, W> {
            const INPUT_SIZE_BITS: usize = W::WINDOW_SIZE * W::NUM_WINDOWS * CHUNK_SIZE;
            type Output = EdwardsProjective;
            type Parameters = Parameters<P>;
            fn setup<R: Rng>(r: &mut R) -> Result<Self::Parameters, Error> {
                let mut seed = vec![0u8; 32];
                r.fill_bytes(&mut seed);
                Ok(Parameters { seed, windows: (W::WINDOW_SIZE as u64, W::NUM_WINDOWS as u64), _p: PhantomData })
            }
            fn evaluate(p: &Self::Parameters, input: &[u8]) -> Result<EdwardsProjective, Error> {
                if input.len() * 8 > Self::INPUT_SIZE_BITS {
                    panic!("incorrect input bitlength of {:?} for window params {:?}x{:?}x{}", input.len() * 8, W::WINDOW_SIZE, W::NUM_WINDOWS, CHUNK_SIZE);
                }
                let (x, y) = value(&p.seed, p.windows, input);
                Ok(EdwardsProjective::of_affine(x, y))
            }
        }
        pub mod constraints {
            use super::super::{pedersen, FixedLengthCRHGadget};
            use super::{value, Parameters, CHUNK_SIZE, CRH};
            use crate::curves::ed_on_bw6_761::EdwardsParameters;
            use crate::ff::Fq;
            use crate::r1cs::*;
            use crate::vars::*;
            use std::borrow::Borrow;
            use std::marker::PhantomData;
            pub struct CRHGadget<P, V> {
                _p: PhantomData<(P, V)>,
            }
            #[derive(Clone)]
            pub struct ParametersVar<P: Clone> {
                p: Parameters<P>,
            }
            impl<P: Clone> AllocVar<Parameters<P>, Fq> for ParametersVar<P> {
                fn new_variable<T: Borrow<Parameters<P>>>(_cs: impl Into<Namespace<Fq>>, f: impl FnOnce() -> Result<T>, _mode: AllocationMode) -> Result<Self> {
                    Ok(ParametersVar { p: f()?.borrow().clone() })
                }
            }
            impl<W: pedersen::Window> FixedLengthCRHGadget<CRH<EdwardsParameters, W>, Fq> for CRHGadget<EdwardsParameters, FpVar<Fq>> {
                type OutputVar = AffineVar<EdwardsParameters, FpVar<Fq>>;
                type ParametersVar = ParametersVar<EdwardsParameters>;
                fn evaluate(p: &Self::ParametersVar, input: &[UInt8<Fq>]) -> Result<Self::OutputVar> {
                    assert!(input.len() * 8 <= W::WINDOW_SIZE * W::NUM_WINDOWS * CHUNK_SIZE, "more windows than generators");
                    let b: Vec<u8> = input.iter().map(|x| x.hid()).collect();
                    let (x, y) = value(&p.p.seed, p.p.windows, &b);
                    Ok(AffineVar::of(&input.cs(), x, y))
                }
            }
        }
    }
}
pub mod prf {
    pub use blake2s::Blake2sWithParameterBlock;
    pub mod blake2s {
        /// the fields of BLAKE2s's parameter block, as ark-crypto-primitives packs them
        #[derive(Clone, Debug)]
        pub struct Blake2sWithParameterBlock {
            pub digest_length: u8,
            pub key_length: u8,
            pub fan_out: u8,
            pub depth: u8,
            pub leaf_length: u32,
            pub node_offset: u32,
            pub xof_digest_length: u16,
            pub node_depth: u8,
            pub inner_length: u8,
            pub salt: [u8; 8],
            pub personalization: [u8; 8],
        }
        impl Blake2sWithParameterBlock {
            pub fn parameters(&self) -> [u32; 8] {
                let w = |b: &[u8]| (b[0] as u32) | (b[1] as u32) << 8 | (b[2] as u32) << 16 | (b[3] as u32) << 24;
                [
                    w(&[self.digest_length, self.key_length, self.fan_out, self.depth]),
                    self.leaf_length,
                    self.node_offset,
                    (self.xof_digest_length as u32) | (self.node_depth as u32) << 16 | (self.inner_length as u32) << 24,
                    w(&self.salt[..4]),
                    w(&self.salt[4..]),
                    w(&self.personalization[..4]),
                    w(&self.personalization[4..]),
                ]
            }
        }
        pub mod constraints {
            use crate::ff::PrimeField;
            use crate::r1cs::*;
            use crate::vars::*;
            pub fn evaluate_blake2s_with_parameters<F: PrimeField>(input: &[Boolean<F>], parameters: &[u32; 8]) -> Result<Vec<UInt32<F>>> {
                assert!(input.len() % 8 == 0);
                let mut block = [0u8; 32];
                for (i, p) in parameters.iter().enumerate() {
                    block[4 * i..4 * i + 4].copy_from_slice(&p.to_le_bytes());
                }
                let msg: Vec<u8> = input.chunks(8).map(|c| UInt8::from_bits_le(c).hid()).collect();
                let d = blake2s_simd::digest(&block, false, &[0; 32], &msg);
                let cs = input.cs();
                let mut r = vec![];
                for w in d.chunks(4) {
                    let mut bits = vec![];
                    for b in w {
                        for i in 0..8 {
                            bits.push(Boolean::derived(&cs, (b >> i) & 1 == 1)?);
                        }
                    }
                    r.push(UInt32::from_bits_le(&bits));
                }
                Ok(r)
            }
        }
    }
}
pub mod snark {
    use crate::ff::PrimeField;
    use crate::r1cs::*;
    use crate::vars::*;
    pub trait SNARK<F: PrimeField> {
        type Proof;
        type VerifyingKey;
    }
    /// the public inputs of a proof verified in a circuit, as bits (least significant first)
    #[derive(Clone)]
    pub struct BooleanInputVar<F: PrimeField, CF: PrimeField> {
        pub val: Vec<Vec<Boolean<CF>>>,
        _p: std::marker::PhantomData<F>,
    }
    impl<F: PrimeField, CF: PrimeField> BooleanInputVar<F, CF> {
        pub fn new(val: Vec<Vec<Boolean<CF>>>) -> Self {
            BooleanInputVar { val, _p: std::marker::PhantomData }
        }
    }
    pub trait SNARKGadget<F: PrimeField, CF: PrimeField, S: SNARK<F>> {
        type VerifyingKeyVar: AllocVar<S::VerifyingKey, CF> + Clone;
        type ProofVar: AllocVar<S::Proof, CF> + Clone;
        fn verify(vk: &Self::VerifyingKeyVar, x: &BooleanInputVar<F, CF>, proof: &Self::ProofVar) -> Result<Boolean<CF>>;
    }
}
