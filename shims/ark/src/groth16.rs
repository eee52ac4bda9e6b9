//! Model of ark-groth16. Acceptance of a proof is an uninterpreted predicate of the verifying key, the
//! public inputs and the proof; a proof this model produces remembers what it was produced from.
use crate::crypto::snark;
use crate::ec::*;
use crate::ff::*;
use crate::r1cs::*;
use crate::ser::*;
use crate::vars::*;
use rand::Rng;
use std::borrow::Borrow;
use std::io::{Read, Write};
use std::marker::PhantomData;
use symapi::{Fe, Uf};

/// what a proof was produced from (model only)
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Made {
    /// the circuit has the allocations and constraints, in order, of the one the key was made for
    pub fits: bool,
    pub satisfied: bool,
    pub inputs: Vec<Fe>,
    pub shape: u64,
    pub constraints: usize,
}
/// logarithm of an element (model only)
pub trait Dlog {
    fn dlog(&self) -> Fe;
}
impl<P: SWModelParameters> Dlog for GroupAffine<P> {
    fn dlog(&self) -> Fe {
        self.d
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Proof<E: PairingEngine> {
    pub a: E::G1Affine,
    pub b: E::G2Affine,
    pub c: E::G1Affine,
    pub made: Option<Made>,
}
impl<E: PairingEngine> Default for Proof<E> {
    fn default() -> Self {
        Proof { a: E::G1Affine::default(), b: E::G2Affine::default(), c: E::G1Affine::default(), made: None }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct VerifyingKey<E: PairingEngine> {
    pub alpha_g1: E::G1Affine,
    pub beta_g2: E::G2Affine,
    pub gamma_g2: E::G2Affine,
    pub delta_g2: E::G2Affine,
    pub gamma_abc_g1: Vec<E::G1Affine>,
}
impl<E: PairingEngine> Default for VerifyingKey<E> {
    fn default() -> Self {
        VerifyingKey { alpha_g1: E::G1Affine::default(), beta_g2: E::G2Affine::default(), gamma_g2: E::G2Affine::default(), delta_g2: E::G2Affine::default(), gamma_abc_g1: vec![] }
    }
}
#[derive(Clone, Debug)]
pub struct PreparedVerifyingKey<E: PairingEngine> {
    pub vk: VerifyingKey<E>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct ProvingKey<E: PairingEngine> {
    pub vk: VerifyingKey<E>,
    pub shape: u64,
    pub constraints: usize,
}
macro_rules! ser {
    ($t:ident { $($f:ident),* } $($e:ident)?) => {
        impl<E: PairingEngine> CanonicalSerialize for $t<E> {
            fn serialize<W: Write>(&self, mut w: W) -> std::result::Result<(), SerializationError> {
                $(self.$f.serialize(&mut w)?;)*
                Ok(())
            }
            fn serialized_size(&self) -> usize {
                0 $(+ self.$f.serialized_size())*
            }
            fn serialize_uncompressed<W: Write>(&self, mut w: W) -> std::result::Result<(), SerializationError> {
                $(self.$f.serialize_uncompressed(&mut w)?;)*
                Ok(())
            }
            fn uncompressed_size(&self) -> usize {
                0 $(+ self.$f.uncompressed_size())*
            }
        }
        impl<E: PairingEngine> CanonicalDeserialize for $t<E> {
            fn deserialize<R: Read>(mut r: R) -> std::result::Result<Self, SerializationError> {
                $(let $f = CanonicalDeserialize::deserialize(&mut r)?;)*
                Ok($t { $($f),* $(, $e: None)? })
            }
            fn deserialize_uncompressed<R: Read>(mut r: R) -> std::result::Result<Self, SerializationError> {
                $(let $f = CanonicalDeserialize::deserialize_uncompressed(&mut r)?;)*
                Ok($t { $($f),* $(, $e: None)? })
            }
            fn deserialize_unchecked<R: Read>(mut r: R) -> std::result::Result<Self, SerializationError> {
                $(let $f = CanonicalDeserialize::deserialize_unchecked(&mut r)?;)*
                Ok($t { $($f),* $(, $e: None)? })
            }
        }
    };
}
ser!(Proof { a, b, c } made);
ser!(VerifyingKey { alpha_g1, beta_g2, gamma_g2, delta_g2, gamma_abc_g1 });
pub fn prepare_verifying_key<E: PairingEngine>(vk: &VerifyingKey<E>) -> PreparedVerifyingKey<E> {
    PreparedVerifyingKey { vk: vk.clone() }
}
fn statement<E: PairingEngine>(vk: &VerifyingKey<E>) -> Uf
where
    E::G1Affine: Dlog,
    E::G2Affine: Dlog,
{
    let mut u = Uf::new().fe(vk.alpha_g1.dlog()).fe(vk.beta_g2.dlog()).fe(vk.gamma_g2.dlog()).fe(vk.delta_g2.dlog());
    for g in &vk.gamma_abc_g1 {
        u = u.fe(g.dlog());
    }
    u
}
/// whether the proof is accepted for these inputs (model only)
pub fn accepts<E: PairingEngine>(vk: &VerifyingKey<E>, proof: &Proof<E>, inputs: &[E::Fr]) -> bool
where
    E::G1Affine: Dlog,
    E::G2Affine: Dlog,
{
    let mut u = statement(vk).fe(proof.a.dlog()).fe(proof.b.dlog()).fe(proof.c.dlog());
    for x in inputs {
        u = u.fe(x.raw());
    }
    u.to_bool("groth16 accepts")
}
pub fn verify_proof<E: PairingEngine>(pvk: &PreparedVerifyingKey<E>, proof: &Proof<E>, inputs: &[E::Fr]) -> Result<bool>
where
    E::G1Affine: Dlog,
    E::G2Affine: Dlog,
{
    if inputs.len() + 1 != pvk.vk.gamma_abc_g1.len() {
        return Err(SynthesisError::MalformedVerifyingKey);
    }
    Ok(accepts(&pvk.vk, proof, inputs))
}
pub fn generate_random_parameters<E, C, R>(circuit: C, rng: &mut R) -> Result<ProvingKey<E>>
where
    E: PairingEngine,
    C: ConstraintSynthesizer<E::Fr>,
    R: Rng,
{
    let cs = ConstraintSystem::any_ref();
    circuit.generate_constraints(cs.clone())?;
    let mut g1 = || E::G1Projective::rand(rng).into_affine();
    let (alpha_g1, n) = (g1(), cs.num_instance_variables());
    let gamma_abc_g1 = (0..n).map(|_| g1()).collect();
    let mut g2 = || E::G2Projective::rand(rng).into_affine();
    let vk = VerifyingKey { alpha_g1, beta_g2: g2(), gamma_g2: g2(), delta_g2: g2(), gamma_abc_g1 };
    Ok(ProvingKey { vk, shape: cs.shape(), constraints: cs.num_constraints() })
}
pub fn create_proof_no_zk<E, C>(circuit: C, pk: &ProvingKey<E>) -> Result<Proof<E>>
where
    E: PairingEngine,
    C: ConstraintSynthesizer<E::Fr>,
{
    let cs = ConstraintSystem::<E::Fr>::new_ref();
    circuit.generate_constraints(cs.clone())?;
    let inputs = cs.borrow().unwrap().instance()[1..].iter().map(|x| x.raw()).collect();
    let made = Made { fits: cs.shape() == pk.shape, satisfied: cs.holds(), inputs, shape: cs.shape(), constraints: cs.num_constraints() };
    Ok(Proof { made: Some(made), ..Default::default() })
}
pub struct Groth16<E: PairingEngine> {
    _p: PhantomData<E>,
}
impl<E: PairingEngine> snark::SNARK<E::Fr> for Groth16<E> {
    type Proof = Proof<E>;
    type VerifyingKey = VerifyingKey<E>;
}
pub mod constraints {
    use super::*;
    pub struct ProofVar<E: PairingEngine, P: PairingVar<E>> {
        pub a: P::G1Var,
        pub b: P::G2Var,
        pub c: P::G1Var,
        hid: Vec<Fe>,
        _e: PhantomData<E>,
    }
    impl<E: PairingEngine, P: PairingVar<E>> Clone for ProofVar<E, P> {
        fn clone(&self) -> Self {
            ProofVar { a: self.a.clone(), b: self.b.clone(), c: self.c.clone(), hid: self.hid.clone(), _e: PhantomData }
        }
    }
    impl<E: PairingEngine, P: PairingVar<E>> AllocVar<Proof<E>, E::Fq> for ProofVar<E, P>
    where
        E::G1Affine: Dlog,
        E::G2Affine: Dlog,
    {
        fn new_variable<T: Borrow<Proof<E>>>(cs: impl Into<Namespace<E::Fq>>, f: impl FnOnce() -> Result<T>, mode: AllocationMode) -> Result<Self> {
            let cs = cs.into().cs();
            let p = f()?.borrow().clone();
            let setup = cs.is_in_setup_mode();
            let h = |d: Fe| if setup { symapi::fe::var(0, "witness proof") } else { d };
            Ok(ProofVar {
                a: P::G1Var::new_variable_omit_prime_order_check(cs.clone(), || Ok(p.a.into_projective()), mode)?,
                b: P::G2Var::new_variable_omit_prime_order_check(cs.clone(), || Ok(p.b.into_projective()), mode)?,
                c: P::G1Var::new_variable_omit_prime_order_check(cs.clone(), || Ok(p.c.into_projective()), mode)?,
                hid: vec![h(p.a.dlog()), h(p.b.dlog()), h(p.c.dlog())],
                _e: PhantomData,
            })
        }
    }
    pub struct VerifyingKeyVar<E: PairingEngine, P: PairingVar<E>> {
        vk: VerifyingKey<E>,
        _p: PhantomData<P>,
    }
    impl<E: PairingEngine, P: PairingVar<E>> Clone for VerifyingKeyVar<E, P> {
        fn clone(&self) -> Self {
            VerifyingKeyVar { vk: self.vk.clone(), _p: PhantomData }
        }
    }
    impl<E: PairingEngine, P: PairingVar<E>> AllocVar<VerifyingKey<E>, E::Fq> for VerifyingKeyVar<E, P> {
        fn new_variable<T: Borrow<VerifyingKey<E>>>(_cs: impl Into<Namespace<E::Fq>>, f: impl FnOnce() -> Result<T>, mode: AllocationMode) -> Result<Self> {
            assert!(mode == AllocationMode::Constant, "not modelled: variable verifying keys");
            Ok(VerifyingKeyVar { vk: f()?.borrow().clone(), _p: PhantomData })
        }
    }
    pub struct Groth16VerifierGadget<E: PairingEngine, P: PairingVar<E>> {
        _p: PhantomData<(E, P)>,
    }
    impl<E: PairingEngine, P: PairingVar<E>> snark::SNARKGadget<E::Fr, E::Fq, Groth16<E>> for Groth16VerifierGadget<E, P>
    where
        E::G1Affine: Dlog,
        E::G2Affine: Dlog,
    {
        type VerifyingKeyVar = VerifyingKeyVar<E, P>;
        type ProofVar = ProofVar<E, P>;
        fn verify(vk: &Self::VerifyingKeyVar, x: &snark::BooleanInputVar<E::Fr, E::Fq>, proof: &Self::ProofVar) -> Result<Boolean<E::Fq>> {
            // the circuit adds one element of the key per input
            assert!(x.val.len() + 1 == vk.vk.gamma_abc_g1.len(), "wrong number of inputs");
            let mut u = super::statement(&vk.vk);
            for h in &proof.hid {
                u = u.fe(*h);
            }
            let mut cs = proof.a.cs();
            for v in &x.val {
                let f = <<E::Fr as Field>::BasePrimeField as PrimeField>::FID;
                let (mut s, mut w) = (symapi::fe::small(f, 0), symapi::fe::small(f, 1));
                for b in v {
                    s = symapi::fe::add(s, symapi::fe::mul(w, symapi::fe::from_bool(f, b.hid())));
                    w = symapi::fe::add(w, w);
                    cs = cs.or(b.cs());
                }
                u = u.fe(s);
            }
            Boolean::derived(&cs, u.to_bool("groth16 accepts"))
        }
    }
}
