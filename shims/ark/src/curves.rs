use crate::ec::*;
use crate::ff::*;
use crate::ser::*;
use rand::Rng;
use std::io::{self, Read, Write};
use std::marker::PhantomData;
use std::ops::*;
use symapi::{fe, Fe, Uf};

pub mod bls12_377 {
    use super::*;
    pub use crate::ff::{Fq, Fq12, Fq2, FqParameters, Fr, FrParameters};
    pub mod g1 {
        use super::*;
        #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
        pub struct Parameters;
        impl ModelParameters for Parameters {
            type BaseField = Fq;
            type ScalarField = Fr;
        }
        impl SWModelParameters for Parameters {
            const NAME: &'static str = "g1";
            const COFACTOR: &'static [u64] = &[0x0, 0x170b5d4430000000];
            const SIZE: usize = 48;
        }
    }
    pub mod g2 {
        use super::*;
        #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
        pub struct Parameters;
        impl ModelParameters for Parameters {
            type BaseField = Fq2;
            type ScalarField = Fr;
        }
        impl SWModelParameters for Parameters {
            const NAME: &'static str = "g2";
            const COFACTOR: &'static [u64] = &[
                0x0000000000000001,
                0x452217cc90000000,
                0xa0f3622fba094800,
                0xd693e8c36676bd09,
                0x8c505634fae2e189,
                0xfbb36b00e1dcc40c,
                0xddd88d99a6f6a829,
                0x26ba558ae9562a,
            ];
            const SIZE: usize = 96;
        }
    }
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
    pub struct Parameters;
    impl bls12::Bls12Parameters for Parameters {
        type Fp = Fq;
        type G1Parameters = g1::Parameters;
        type G2Parameters = g2::Parameters;
    }
    pub type G1Affine = GroupAffine<g1::Parameters>;
    pub type G1Projective = GroupProjective<g1::Parameters>;
    pub type G2Affine = GroupAffine<g2::Parameters>;
    pub type G2Projective = GroupProjective<g2::Parameters>;
    pub type G1Prepared = super::G1Prepared<Parameters>;
    pub type G2Prepared = super::G2Prepared<Parameters>;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Bls12_377;
    impl From<G1Affine> for G1Prepared {
        fn from(a: G1Affine) -> Self {
            Prepared(a.d, PhantomData)
        }
    }
    impl From<G2Affine> for G2Prepared {
        fn from(a: G2Affine) -> Self {
            Prepared(a.d, PhantomData)
        }
    }
    impl From<G1Projective> for G1Prepared {
        fn from(a: G1Projective) -> Self {
            Prepared(a.d, PhantomData)
        }
    }
    impl From<G2Projective> for G2Prepared {
        fn from(a: G2Projective) -> Self {
            Prepared(a.d, PhantomData)
        }
    }
    impl PairingEngine for Bls12_377 {
        type Fr = Fr;
        type G1Projective = G1Projective;
        type G1Affine = G1Affine;
        type G1Prepared = G1Prepared;
        type G2Projective = G2Projective;
        type G2Affine = G2Affine;
        type G2Prepared = G2Prepared;
        type Fq = Fq;
        type Fqe = Fq2;
        type Fqk = Fq12;
        fn miller_loop<'a, I>(i: I) -> Fq12
        where
            I: IntoIterator<Item = &'a (G1Prepared, G2Prepared)>,
        {
            let mut s = Fr::zero();
            for (a, b) in i {
                s += Fr(fe::mul(a.0, b.0));
            }
            Fq12(s)
        }
        fn final_exponentiation(f: &Fq12) -> Option<Fq12> {
            Some(*f)
        }
    }
}
/// The Edwards curve over BW6-761's scalar field, as far as the Pedersen hash uses it.
pub mod ed_on_bw6_761 {
    use super::*;
    pub use crate::ff::{Fq, FqParameters};
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
    pub struct EdwardsParameters;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct EdwardsAffine {
        pub x: Fq,
        pub y: Fq,
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct EdwardsProjective {
        pub x: Fq,
        pub y: Fq,
        pub t: Fq,
        pub z: Fq,
        pub(crate) ax: Fq,
        pub(crate) ay: Fq,
    }
    impl EdwardsProjective {
        pub fn of_affine(x: Fq, y: Fq) -> Self {
            let z = Fq(Uf::new().fe(x.0).fe(y.0).to_fe("edz", 1));
            EdwardsProjective { x: x * z, y: y * z, t: x * y * z, z, ax: x, ay: y }
        }
        pub fn is_normalized(&self) -> bool {
            self.z.is_one()
        }
    }
    impl From<EdwardsProjective> for EdwardsAffine {
        fn from(p: EdwardsProjective) -> Self {
            EdwardsAffine { x: p.ax, y: p.ay }
        }
    }
    impl From<EdwardsAffine> for EdwardsProjective {
        fn from(p: EdwardsAffine) -> Self {
            EdwardsProjective { x: p.x, y: p.y, t: p.x * p.y, z: Fq::one(), ax: p.x, ay: p.y }
        }
    }
    impl Default for EdwardsAffine {
        fn default() -> Self {
            EdwardsAffine { x: Fq::zero(), y: Fq::one() }
        }
    }
    impl Default for EdwardsProjective {
        fn default() -> Self {
            EdwardsAffine::default().into()
        }
    }
    macro_rules! edwards {
        ($t:ident) => {
            impl std::fmt::Display for $t {
                fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                    f.write_str("edwards point")
                }
            }
            impl std::hash::Hash for $t {
                fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
                    h.write_u8(0)
                }
            }
            impl ToBytes for $t {
                fn write<W: Write>(&self, mut w: W) -> io::Result<()> {
                    let a: EdwardsAffine = (*self).into();
                    a.x.write(&mut w)?;
                    a.y.write(w)
                }
            }
            impl FromBytes for $t {
                fn read<R: Read>(mut r: R) -> io::Result<Self> {
                    let x = Fq::read(&mut r)?;
                    let y = Fq::read(r)?;
                    Ok(EdwardsAffine { x, y }.into())
                }
            }
            impl CanonicalSerialize for $t {
                fn serialize<W: Write>(&self, mut w: W) -> Result<(), SerializationError> {
                    let a: EdwardsAffine = (*self).into();
                    let b = Uf::new().fe(a.x.0).fe(a.y.0).to_bytes("!edser", 48);
                    Ok(w.write_all(&b)?)
                }
                fn serialized_size(&self) -> usize {
                    48
                }
                fn serialize_uncompressed<W: Write>(&self, mut w: W) -> Result<(), SerializationError> {
                    let a: EdwardsAffine = (*self).into();
                    a.x.serialize(&mut w)?;
                    a.y.serialize(w)
                }
                fn uncompressed_size(&self) -> usize {
                    96
                }
            }
            impl CanonicalDeserialize for $t {
                fn deserialize<R: Read>(_r: R) -> Result<Self, SerializationError> {
                    unimplemented!("not modelled: decompression of Edwards points")
                }
            }
            impl Zero for $t {
                fn zero() -> Self {
                    $t::default()
                }
                fn is_zero(&self) -> bool {
                    let a: EdwardsAffine = (*self).into();
                    symapi::and(a.x.is_zero(), a.y.is_one())
                }
            }
        };
    }
    edwards!(EdwardsAffine);
    edwards!(EdwardsProjective);
    fn ed_add(a: &EdwardsProjective, b: &EdwardsProjective) -> EdwardsProjective {
        let f = |n: &str| Fq(Uf::new().fe(a.ax.0).fe(a.ay.0).fe(b.ax.0).fe(b.ay.0).to_fe(n, 1));
        EdwardsProjective::of_affine(f("edaddx"), f("edaddy"))
    }
    fn ed_sub(a: &EdwardsProjective, b: &EdwardsProjective) -> EdwardsProjective {
        ed_add(a, &EdwardsAffine { x: -b.ax, y: b.ay }.into())
    }
    crate::ops!([] EdwardsProjective, EdwardsProjective::zero(), ed_add, ed_sub);
    impl Add for EdwardsAffine {
        type Output = Self;
        fn add(self, o: Self) -> Self {
            ed_add(&self.into(), &o.into()).into()
        }
    }
    impl Neg for EdwardsAffine {
        type Output = Self;
        fn neg(self) -> Self {
            EdwardsAffine { x: -self.x, y: self.y }
        }
    }
    impl UniformRand for EdwardsProjective {
        fn rand<R: Rng + ?Sized>(rng: &mut R) -> Self {
            EdwardsProjective::of_affine(Fq::rand(rng), Fq::rand(rng))
        }
    }
    impl ProjectiveCurve for EdwardsProjective {
        const COFACTOR: &'static [u64] = &[8];
        type ScalarField = Fr;
        type BaseField = Fq;
        type Affine = EdwardsAffine;
        fn prime_subgroup_generator() -> Self {
            EdwardsProjective::of_affine(Fq(Uf::new().u64(0).to_fe("edgen", 1)), Fq(Uf::new().u64(1).to_fe("edgen", 1)))
        }
        fn batch_normalization(v: &mut [Self]) {
            for p in v {
                *p = p.into_affine().into();
            }
        }
        fn is_normalized(&self) -> bool {
            self.z.is_one()
        }
        fn mul<S: AsRef<[u64]>>(self, o: S) -> Self {
            let b: Vec<u8> = o.as_ref().iter().flat_map(|l| l.to_le_bytes().to_vec()).collect();
            let f = |n: &str| Fq(Uf::new().fe(self.ax.0).fe(self.ay.0).bytes(&b).to_fe(n, 1));
            EdwardsProjective::of_affine(f("edmulx"), f("edmuly"))
        }
    }
    impl AffineCurve for EdwardsAffine {
        const COFACTOR: &'static [u64] = &[8];
        type ScalarField = Fr;
        type BaseField = Fq;
        type Projective = EdwardsProjective;
        fn prime_subgroup_generator() -> Self {
            EdwardsProjective::prime_subgroup_generator().into()
        }
        fn from_random_bytes(_b: &[u8]) -> Option<Self> {
            unimplemented!("not modelled")
        }
        fn mul<S: Into<BigInteger256>>(&self, o: S) -> EdwardsProjective {
            ProjectiveCurve::mul(self.into_projective(), o.into())
        }
        fn mul_by_cofactor_to_projective(&self) -> EdwardsProjective {
            ProjectiveCurve::mul(self.into_projective(), [8u64])
        }
    }
}
/// BW6-761: its scalar field is BLS12-377's base field; the group elements (of proofs) are opaque.
pub mod bw6_761 {
    use super::*;
    pub use crate::ff::{Fq as Fr, FqParameters as FrParameters};
    pub mod g1 {
        use super::*;
        #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
        pub struct Parameters;
        impl ModelParameters for Parameters {
            type BaseField = Fr;
            type ScalarField = Fr;
        }
        impl SWModelParameters for Parameters {
            const NAME: &'static str = "bw1";
            const COFACTOR: &'static [u64] = &[1];
            const SIZE: usize = 96;
        }
    }
    pub mod g2 {
        use super::*;
        #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
        pub struct Parameters;
        impl ModelParameters for Parameters {
            type BaseField = Fr;
            type ScalarField = Fr;
        }
        impl SWModelParameters for Parameters {
            const NAME: &'static str = "bw2";
            const COFACTOR: &'static [u64] = &[1];
            const SIZE: usize = 96;
        }
    }
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
    pub struct Parameters;
    pub type G1Affine = GroupAffine<g1::Parameters>;
    pub type G1Projective = GroupProjective<g1::Parameters>;
    pub type G2Affine = GroupAffine<g2::Parameters>;
    pub type G2Projective = GroupProjective<g2::Parameters>;
    pub type G1Prepared = super::G1Prepared<Parameters>;
    pub type G2Prepared = super::G2Prepared<Parameters>;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct BW6_761;
    impl From<G1Affine> for G1Prepared {
        fn from(a: G1Affine) -> Self {
            Prepared(a.d, PhantomData)
        }
    }
    impl From<G2Affine> for G2Prepared {
        fn from(a: G2Affine) -> Self {
            Prepared(a.d, PhantomData)
        }
    }
    impl PairingEngine for BW6_761 {
        type Fr = Fr;
        type G1Projective = G1Projective;
        type G1Affine = G1Affine;
        type G1Prepared = G1Prepared;
        type G2Projective = G2Projective;
        type G2Affine = G2Affine;
        type G2Prepared = G2Prepared;
        type Fq = Fr;
        type Fqe = Fr;
        type Fqk = Fq12;
        fn miller_loop<'a, I>(_i: I) -> Fq12
        where
            I: IntoIterator<Item = &'a (G1Prepared, G2Prepared)>,
        {
            unimplemented!("not modelled: pairings of BW6-761")
        }
        fn final_exponentiation(f: &Fq12) -> Option<Fq12> {
            Some(*f)
        }
    }
}
