use crate::ff::*;
use crate::ser::*;
use rand::Rng;
use std::fmt::{self, Debug, Display};
use std::io::{self, Read, Write};
use std::marker::PhantomData;
use std::ops::*;
use symapi::{fe, Fe, Uf};

pub type Scalar = Fr;

pub trait ModelParameters: Send + Sync + 'static {
    type BaseField: Field + SquareRootField;
    type ScalarField: PrimeField + SquareRootField + Into<<Self::ScalarField as PrimeField>::BigInt>;
}
pub trait SWModelParameters: ModelParameters + Sized {
    const NAME: &'static str;
    const COFACTOR: &'static [u64];
    /// bytes of a serialized compressed point
    const SIZE: usize;
}
pub mod group {
    use super::*;
    pub trait Group:
        ToBytes + FromBytes + CanonicalSerialize + CanonicalDeserialize + Copy + Clone + Debug + Display + Default + Send + Sync + 'static + Eq + std::hash::Hash + Neg<Output = Self> + UniformRand + Zero
    {
        type ScalarField: PrimeField;
        fn double(&self) -> Self;
        fn double_in_place(&mut self) -> &mut Self;
        fn mul<'a>(&self, other: &'a Self::ScalarField) -> Self;
    }
    impl<P: SWModelParameters<ScalarField = Scalar>> Group for GroupProjective<P> {
        type ScalarField = Scalar;
        fn double(&self) -> Self {
            *self + *self
        }
        fn double_in_place(&mut self) -> &mut Self {
            *self = *self + *self;
            self
        }
        fn mul<'a>(&self, other: &'a Scalar) -> Self {
            scale(self, other.0)
        }
    }
}

fn uf_parts(u: Uf, v: &[Fe]) -> Uf {
    let mut u = u;
    for x in v {
        u = u.fe(*x);
    }
    u
}
fn fname(p: &str, s: &str, i: usize) -> String {
    let mut n = String::from(p);
    n.push('_');
    n.push_str(s);
    n.push((b'0' + i as u8) as char);
    n
}
/// i-th function of the arguments with values in F
fn fun<F: Field>(p: &str, s: &str, args: &[Fe]) -> F {
    let k = F::extension_degree() as usize;
    let v: Vec<Fe> = (0..k).map(|i| uf_parts(Uf::new(), args).to_fe(&fname(p, s, i), 1)).collect();
    F::from_parts(&v)
}

pub struct GroupAffine<P: SWModelParameters> {
    pub x: P::BaseField,
    pub y: P::BaseField,
    pub infinity: bool,
    /// discrete logarithm (of the component in the prime-order subgroup)
    pub d: Fe,
    /// obtained from coordinates, so maybe outside the prime-order subgroup
    pub raw: bool,
    pub _p: PhantomData<P>,
}
/// Jacobian coordinates as functions of the discrete logarithm and the representative
pub struct GroupProjective<P: SWModelParameters> {
    pub x: P::BaseField,
    pub y: P::BaseField,
    pub z: P::BaseField,
    pub d: Fe,
    pub raw: bool,
    pub _p: PhantomData<P>,
}
fn fr0() -> Fe {
    fe::small(0, 0)
}
/// harnesses that fix by assumption which alternatives their paths take set this
pub static mut SETTLE: bool = false;
pub fn settled(b: bool) -> bool {
    if unsafe { SETTLE } {
        symapi::settle(b)
    } else {
        b
    }
}
fn is0(d: Fe) -> bool {
    fe::eq(d, fr0())
}
/// canonical affine coordinates of a point of the subgroup
pub fn coords<P: SWModelParameters>(d: Fe) -> (P::BaseField, P::BaseField) {
    (fun::<P::BaseField>(P::NAME, "x", &[d]), fun::<P::BaseField>(P::NAME, "y", &[d]))
}
impl<P: SWModelParameters> GroupAffine<P> {
    /// arkworks: trusts the coordinates. The point is a function of them.
    pub fn new(x: P::BaseField, y: P::BaseField, infinity: bool) -> Self {
        let mut a = x.parts();
        a.extend(y.parts());
        let d = uf_parts(Uf::new(), &a).to_fe(&fname(P::NAME, "dlog", 0), 0);
        GroupAffine { x, y, infinity, d: fe::ite(infinity, fr0(), d), raw: true, _p: PhantomData }
    }
    pub fn of_dlog(d: Fe) -> Self {
        let (x, y) = coords::<P>(d);
        let z = settled(is0(d));
        GroupAffine {
            x: P::BaseField::pick(z, &P::BaseField::zero(), &x),
            y: P::BaseField::pick(z, &P::BaseField::one(), &y),
            infinity: z,
            d,
            raw: false,
            _p: PhantomData,
        }
    }
    /// the point with this x and the larger (greatest) or smaller y, if there is one
    pub fn get_point_from_x(x: P::BaseField, greatest: bool) -> Option<Self> {
        let (on, y) = Self::y_of_x(x, greatest);
        if on {
            Some(GroupAffine::new(x, y, false))
        } else {
            None
        }
    }
    /// whether some point has this x, and its larger or smaller y
    pub fn y_of_x(x: P::BaseField, greatest: bool) -> (bool, P::BaseField) {
        let on = uf_parts(Uf::new(), &x.parts()).to_bool(&fname(P::NAME, "on_curve", 0));
        let y: P::BaseField = fun::<P::BaseField>(P::NAME, "ylarge", &x.parts());
        if unsafe { LARGER_IS_LARGER } {
            // y itself and its negation both fit half the field only at the boundary
            let (u, b) = upper_parts(&y.parts());
            symapi::assume(symapi::or(symapi::not(on), symapi::and(u, symapi::not(b))));
        }
        (on, P::BaseField::pick(greatest, &y, &(-y)))
    }
    pub fn scale_by_cofactor(&self) -> GroupProjective<P> {
        <Self as AffineCurve>::mul_by_cofactor_to_projective(self)
    }
    pub fn mul_by_cofactor(&self) -> Self {
        self.scale_by_cofactor().into_affine()
    }
    pub fn is_on_curve(&self) -> bool {
        true
    }
    pub fn is_in_correct_subgroup_assuming_on_curve(&self) -> bool {
        if !self.raw {
            return true;
        }
        let mut a = self.x.parts();
        a.extend(self.y.parts());
        uf_parts(Uf::new(), &a).to_bool(&fname(P::NAME, "in_subgroup", 0))
    }
}
/// harnesses that compare the sign of y with what decompression was asked for set this: the larger y is
/// then more than (p-1)/2 as a number, and not (p+1)/2
pub static mut LARGER_IS_LARGER: bool = false;
/// lexicographically above (p-1)/2 from the last part on; the deciding part is (p+1)/2
fn upper_parts(v: &[Fe]) -> (bool, bool) {
    let h = <Fq as PrimeField>::modulus_minus_one_div_two().0;
    let mut h1 = h;
    h1[0] += 1;
    let (mut r, mut edge) = (false, false);
    for x in v {
        let b = fe::to_bytes(*x, 48);
        let mut l = [0u64; 6];
        for i in 0..48 {
            l[i / 8] |= (b[i] as u64) << (8 * (i % 8));
        }
        let above = limbs_lt(&h, &l);
        let mut z = true;
        let mut e = true;
        for i in 0..6 {
            z = symapi::and(z, l[i] == 0);
            e = symapi::and(e, l[i] == h1[i]);
        }
        r = symapi::or(above, symapi::and(z, r));
        edge = symapi::or(e, symapi::and(z, edge));
    }
    (r, edge)
}
fn cofactor<P: SWModelParameters>() -> Fe {
    let b: Vec<u8> = P::COFACTOR.iter().flat_map(|l| l.to_le_bytes().to_vec()).collect();
    fe::from_bytes(0, &b)
}
impl<P: SWModelParameters> GroupProjective<P> {
    pub fn new(x: P::BaseField, y: P::BaseField, z: P::BaseField) -> Self {
        if z.is_one() {
            return GroupAffine::<P>::new(x, y, false).into();
        }
        let mut a = x.parts();
        a.extend(y.parts());
        a.extend(z.parts());
        let d = uf_parts(Uf::new(), &a).to_fe(&fname(P::NAME, "jdlog", 0), 0);
        GroupProjective { x, y, z, d: fe::ite(z.is_zero(), fr0(), d), raw: true, _p: PhantomData }
    }
    /// a representative of the point with discrete logarithm d
    pub fn of_dlog_rep(d: Fe, rep: P::BaseField) -> Self {
        let mut a = vec![d];
        a.extend(rep.parts());
        GroupProjective {
            x: fun::<P::BaseField>(P::NAME, "jx", &a),
            y: fun::<P::BaseField>(P::NAME, "jy", &a),
            z: rep,
            d,
            raw: false,
            _p: PhantomData,
        }
    }
    pub fn of_dlog(d: Fe) -> Self {
        GroupAffine::<P>::of_dlog(d).into()
    }
    fn computed(d: Fe, from: &[Fe]) -> Self {
        Self::of_dlog_rep(d, fun::<P::BaseField>(P::NAME, "jz", from))
    }
    pub fn scale_by_cofactor(&self) -> Self {
        scale(self, cofactor::<P>())
    }
    pub fn is_normalized(&self) -> bool {
        self.z.is_one()
    }
}
fn scale<P: SWModelParameters>(a: &GroupProjective<P>, k: Fe) -> GroupProjective<P> {
    let mut f = a.z.parts();
    f.push(a.d);
    f.push(k);
    GroupProjective::computed(fe::mul(a.d, k), &f)
}
fn padd<P: SWModelParameters>(a: &GroupProjective<P>, b: &GroupProjective<P>) -> GroupProjective<P> {
    let mut f = a.z.parts();
    f.push(a.d);
    f.push(b.d);
    f.extend(b.z.parts());
    GroupProjective::computed(fe::add(a.d, b.d), &f)
}
fn pneg<P: SWModelParameters>(a: &GroupProjective<P>) -> GroupProjective<P> {
    GroupProjective { x: a.x, y: -a.y, z: a.z, d: fe::neg(a.d), raw: a.raw, _p: PhantomData }
}
fn psub<P: SWModelParameters>(a: &GroupProjective<P>, b: &GroupProjective<P>) -> GroupProjective<P> {
    padd(a, &pneg(b))
}
macro_rules! common {
    ($t:ident) => {
        impl<P: SWModelParameters> Clone for $t<P> {
            fn clone(&self) -> Self {
                *self
            }
        }
        impl<P: SWModelParameters> Copy for $t<P> {}
        impl<P: SWModelParameters> Debug for $t<P> {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("point")
            }
        }
        impl<P: SWModelParameters> Display for $t<P> {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("point")
            }
        }
        impl<P: SWModelParameters> Default for $t<P> {
            fn default() -> Self {
                $t::zero()
            }
        }
        impl<P: SWModelParameters> Eq for $t<P> {}
        impl<P: SWModelParameters> std::hash::Hash for $t<P> {
            fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
                h.write_u8(0)
            }
        }
        impl<P: SWModelParameters> ToBytes for $t<P> {
            fn write<W: Write>(&self, mut w: W) -> io::Result<()> {
                // limb by limb, as the library does
                for l in Uf::new().fe(self.d).to_bytes(&fname("!raw", P::NAME, 0), 2 * P::SIZE).chunks(8) {
                    w.write_all(l)?;
                }
                Ok(())
            }
        }
        impl<P: SWModelParameters> FromBytes for $t<P> {
            fn read<R: Read>(r: R) -> io::Result<Self> {
                Self::deserialize_unchecked(r).map_err(|_| io::Error::new(io::ErrorKind::Other, "point"))
            }
        }
    };
}
common!(GroupAffine);
common!(GroupProjective);
impl<P: SWModelParameters> PartialEq for GroupAffine<P> {
    fn eq(&self, o: &Self) -> bool {
        let d = fe::eq(self.d, o.d);
        if self.raw || o.raw {
            symapi::and(d, symapi::and(self.x == o.x, self.y == o.y))
        } else {
            d
        }
    }
}
impl<P: SWModelParameters> PartialEq for GroupProjective<P> {
    fn eq(&self, o: &Self) -> bool {
        fe::eq(self.d, o.d)
    }
}
impl<P: SWModelParameters> Zero for GroupAffine<P> {
    fn zero() -> Self {
        GroupAffine { x: P::BaseField::zero(), y: P::BaseField::one(), infinity: true, d: fr0(), raw: false, _p: PhantomData }
    }
    fn is_zero(&self) -> bool {
        self.infinity
    }
}
impl<P: SWModelParameters> Add<Self> for GroupAffine<P> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        GroupAffine::of_dlog(fe::add(self.d, o.d))
    }
}
impl<'a, P: SWModelParameters> AddAssign<&'a Self> for GroupAffine<P> {
    fn add_assign(&mut self, o: &'a Self) {
        *self = *self + *o
    }
}
impl<P: SWModelParameters> Neg for GroupAffine<P> {
    type Output = Self;
    fn neg(self) -> Self {
        GroupAffine { y: -self.y, d: fe::neg(self.d), ..self }
    }
}
impl<P: SWModelParameters> Zero for GroupProjective<P> {
    fn zero() -> Self {
        GroupProjective { x: P::BaseField::one(), y: P::BaseField::one(), z: P::BaseField::zero(), d: fr0(), raw: false, _p: PhantomData }
    }
    fn is_zero(&self) -> bool {
        is0(self.d)
    }
}
crate::ops!([P: SWModelParameters] GroupProjective<P>, GroupProjective::zero(), padd::<P>, psub::<P>);
impl<P: SWModelParameters> UniformRand for GroupProjective<P> {
    fn rand<R: Rng + ?Sized>(rng: &mut R) -> Self {
        GroupProjective::of_dlog(rand::field(0, rng))
    }
}
impl<P: SWModelParameters> From<GroupAffine<P>> for GroupProjective<P> {
    fn from(a: GroupAffine<P>) -> Self {
        let (o, z) = (P::BaseField::one(), P::BaseField::zero());
        let i = a.infinity;
        GroupProjective { x: P::BaseField::pick(i, &o, &a.x), y: P::BaseField::pick(i, &o, &a.y), z: P::BaseField::pick(i, &z, &o), d: a.d, raw: a.raw, _p: PhantomData }
    }
}
impl<P: SWModelParameters> From<GroupProjective<P>> for GroupAffine<P> {
    fn from(p: GroupProjective<P>) -> Self {
        if p.raw {
            // a representative of coordinates given from outside
            return GroupAffine { x: p.x, y: p.y, infinity: settled(p.is_zero()), d: p.d, raw: true, _p: PhantomData };
        }
        GroupAffine::of_dlog(p.d)
    }
}
/// what a byte string of a point decodes to: (accepted, discrete logarithm)
fn decode<P: SWModelParameters>(b: &[u8], form: &str) -> (bool, Fe) {
    let ok = Uf::new().bytes(b).to_bool(&fname(P::NAME, form, 1));
    let d = Uf::new().bytes(b).to_fe(&fname(P::NAME, form, 2), 0);
    // an accepted string is the encoding of what it decodes to
    let e = encode_raw::<P>(d, b.len(), form);
    symapi::assume(symapi::or(!ok, symapi::eq_bytes(&e, b)));
    (ok, d)
}
fn encode_raw<P: SWModelParameters>(d: Fe, n: usize, form: &str) -> Vec<u8> {
    let mut name = String::from("!");
    name.push_str(&fname(P::NAME, form, 0));
    Uf::new().fe(d).to_bytes(&name, n)
}
fn encode<P: SWModelParameters>(d: Fe, n: usize, form: &str) -> Vec<u8> {
    let b = encode_raw::<P>(d, n, form);
    // and is accepted and decodes to it
    symapi::assume(Uf::new().bytes(&b).to_bool(&fname(P::NAME, form, 1)));
    symapi::assume(fe::eq(Uf::new().bytes(&b).to_fe(&fname(P::NAME, form, 2), 0), d));
    b
}
macro_rules! points {
    ($t:ident) => {
        impl<P: SWModelParameters> CanonicalSerialize for $t<P> {
            fn serialize<W: Write>(&self, mut w: W) -> Result<(), SerializationError> {
                Ok(w.write_all(&encode::<P>(self.d, P::SIZE, "ser"))?)
            }
            fn serialized_size(&self) -> usize {
                P::SIZE
            }
            fn serialize_uncompressed<W: Write>(&self, mut w: W) -> Result<(), SerializationError> {
                // coordinate by coordinate, as the library does
                for c in encode::<P>(self.d, 2 * P::SIZE, "unc").chunks(48) {
                    w.write_all(c)?;
                }
                Ok(())
            }
            fn uncompressed_size(&self) -> usize {
                2 * P::SIZE
            }
        }
        impl<P: SWModelParameters> CanonicalDeserialize for $t<P> {
            fn deserialize<R: Read>(mut r: R) -> Result<Self, SerializationError> {
                let mut b = vec![0u8; P::SIZE];
                r.read_exact(&mut b)?;
                let (ok, d) = decode::<P>(&b, "ser");
                if ok {
                    Ok($t::of_dlog(d))
                } else {
                    Err(SerializationError::InvalidData)
                }
            }
            fn deserialize_uncompressed<R: Read>(mut r: R) -> Result<Self, SerializationError> {
                let mut b = vec![0u8; 2 * P::SIZE];
                r.read_exact(&mut b)?;
                let (ok, d) = decode::<P>(&b, "unc");
                if ok {
                    Ok($t::of_dlog(d))
                } else {
                    Err(SerializationError::InvalidData)
                }
            }
            /// no subgroup check: accepts more, and what it accepts need not be a point of the group
            fn deserialize_unchecked<R: Read>(mut r: R) -> Result<Self, SerializationError> {
                let mut b = vec![0u8; 2 * P::SIZE];
                r.read_exact(&mut b)?;
                let (ok, d) = decode::<P>(&b, "unc");
                let ok2 = Uf::new().bytes(&b).to_bool(&fname(P::NAME, "unchecked_ok", 0));
                let d2 = Uf::new().bytes(&b).to_fe(&fname(P::NAME, "unchecked", 0), 0);
                if symapi::or(ok, ok2) {
                    Ok($t::of_dlog(fe::ite(ok, d, d2)))
                } else {
                    Err(SerializationError::InvalidData)
                }
            }
        }
    };
}
points!(GroupAffine);
points!(GroupProjective);

pub trait ProjectiveCurve:
    Eq
    + 'static
    + Sized
    + ToBytes
    + FromBytes
    + Copy
    + Clone
    + Default
    + Send
    + Sync
    + std::hash::Hash
    + Debug
    + Display
    + UniformRand
    + Zero
    + CanonicalSerialize
    + CanonicalDeserialize
    + Neg<Output = Self>
    + Add<Self, Output = Self>
    + Sub<Self, Output = Self>
    + AddAssign<Self>
    + SubAssign<Self>
    + for<'a> Add<&'a Self, Output = Self>
    + for<'a> Sub<&'a Self, Output = Self>
    + for<'a> AddAssign<&'a Self>
    + for<'a> SubAssign<&'a Self>
    + std::iter::Sum<Self>
    + for<'a> std::iter::Sum<&'a Self>
    + From<<Self as ProjectiveCurve>::Affine>
    + Into<<Self as ProjectiveCurve>::Affine>
{
    const COFACTOR: &'static [u64];
    type ScalarField: PrimeField + SquareRootField;
    type BaseField: Field;
    type Affine: AffineCurve<Projective = Self, ScalarField = Self::ScalarField, BaseField = Self::BaseField> + From<Self> + Into<Self>;
    fn prime_subgroup_generator() -> Self;
    fn batch_normalization(v: &mut [Self]);
    fn batch_normalization_into_affine(v: &[Self]) -> Vec<Self::Affine> {
        v.iter().map(|p| p.into_affine()).collect()
    }
    fn is_normalized(&self) -> bool;
    fn double(&self) -> Self {
        *self + *self
    }
    fn double_in_place(&mut self) -> &mut Self {
        *self = *self + *self;
        self
    }
    fn into_affine(&self) -> Self::Affine {
        (*self).into()
    }
    fn add_mixed(mut self, other: &Self::Affine) -> Self {
        self.add_assign_mixed(other);
        self
    }
    fn add_assign_mixed(&mut self, other: &Self::Affine) {
        *self += other.into_projective()
    }
    fn mul<S: AsRef<[u64]>>(self, other: S) -> Self;
}
pub trait AffineCurve:
    Eq
    + 'static
    + Sized
    + ToBytes
    + FromBytes
    + CanonicalSerialize
    + CanonicalDeserialize
    + Copy
    + Clone
    + Default
    + Send
    + Sync
    + std::hash::Hash
    + Debug
    + Display
    + Zero
    + Neg<Output = Self>
    + From<<Self as AffineCurve>::Projective>
    + Into<<Self as AffineCurve>::Projective>
{
    const COFACTOR: &'static [u64];
    type ScalarField: PrimeField + SquareRootField + Into<<Self::ScalarField as PrimeField>::BigInt>;
    type BaseField: Field;
    type Projective: ProjectiveCurve<Affine = Self, ScalarField = Self::ScalarField, BaseField = Self::BaseField> + From<Self> + Into<Self>;
    fn prime_subgroup_generator() -> Self;
    fn from_random_bytes(bytes: &[u8]) -> Option<Self>;
    fn mul<S: Into<<Self::ScalarField as PrimeField>::BigInt>>(&self, other: S) -> Self::Projective;
    fn mul_by_cofactor_to_projective(&self) -> Self::Projective;
    fn into_projective(&self) -> Self::Projective {
        (*self).into()
    }
    fn mul_by_cofactor(&self) -> Self {
        self.mul_by_cofactor_to_projective().into()
    }
}
fn limbs_to_scalar(l: &[u64]) -> Fe {
    let b: Vec<u8> = l.iter().flat_map(|l| l.to_le_bytes().to_vec()).collect();
    fe::from_bytes(0, &b)
}
impl<P: SWModelParameters> ProjectiveCurve for GroupProjective<P> {
    const COFACTOR: &'static [u64] = P::COFACTOR;
    type ScalarField = P::ScalarField;
    type BaseField = P::BaseField;
    type Affine = GroupAffine<P>;
    fn prime_subgroup_generator() -> Self {
        GroupProjective::of_dlog(fe::small(0, 1))
    }
    fn batch_normalization(v: &mut [Self]) {
        for p in v {
            *p = p.into_affine().into();
        }
    }
    fn is_normalized(&self) -> bool {
        symapi::or(self.is_zero(), self.z.is_one())
    }
    fn mul<S: AsRef<[u64]>>(self, other: S) -> Self {
        scale(&self, limbs_to_scalar(other.as_ref()))
    }
}
impl<P: SWModelParameters> MulAssign<Scalar> for GroupProjective<P> {
    fn mul_assign(&mut self, o: Scalar) {
        *self = scale(self, o.0)
    }
}
impl<P: SWModelParameters> AffineCurve for GroupAffine<P> {
    const COFACTOR: &'static [u64] = P::COFACTOR;
    type ScalarField = P::ScalarField;
    type BaseField = P::BaseField;
    type Projective = GroupProjective<P>;
    fn prime_subgroup_generator() -> Self {
        GroupAffine::of_dlog(fe::small(0, 1))
    }
    fn from_random_bytes(bytes: &[u8]) -> Option<Self> {
        P::BaseField::from_random_bytes_with_flags::<SWFlags>(bytes).and_then(|(x, flags)| {
            if x.is_zero() && flags.is_infinity() {
                Some(Self::zero())
            } else if let Some(y) = flags.is_positive() {
                Self::get_point_from_x(x, y)
            } else {
                None
            }
        })
    }
    fn mul<S: Into<<P::ScalarField as PrimeField>::BigInt>>(&self, other: S) -> GroupProjective<P> {
        let b: <P::ScalarField as PrimeField>::BigInt = other.into();
        ProjectiveCurve::mul(self.into_projective(), b)
    }
    fn mul_by_cofactor_to_projective(&self) -> GroupProjective<P> {
        let mut p = scale(&self.into_projective(), cofactor::<P>());
        p.raw = false;
        p
    }
}
pub mod msm {
    use super::*;
    pub struct VariableBaseMSM;
    impl VariableBaseMSM {
        pub fn multi_scalar_mul<G: AffineCurve>(bases: &[G], scalars: &[<G::ScalarField as PrimeField>::BigInt]) -> G::Projective {
            let mut r = G::Projective::zero();
            for (b, s) in bases.iter().zip(scalars) {
                r += b.mul(*s);
            }
            r
        }
    }
}
pub trait PairingEngine: Sized + 'static + Copy + Debug + Sync + Send + Eq {
    type Fr: PrimeField + SquareRootField + Into<<Self::Fr as PrimeField>::BigInt>;
    type G1Projective: ProjectiveCurve<BaseField = Self::Fq, ScalarField = Self::Fr, Affine = Self::G1Affine> + From<Self::G1Affine> + Into<Self::G1Affine>;
    type G1Affine: AffineCurve<BaseField = Self::Fq, ScalarField = Self::Fr, Projective = Self::G1Projective> + From<Self::G1Projective> + Into<Self::G1Projective> + Into<Self::G1Prepared>;
    type G1Prepared: ToBytes + Default + Clone + Send + Sync + Debug + From<Self::G1Affine>;
    type G2Projective: ProjectiveCurve<BaseField = Self::Fqe, ScalarField = Self::Fr, Affine = Self::G2Affine> + From<Self::G2Affine> + Into<Self::G2Affine>;
    type G2Affine: AffineCurve<BaseField = Self::Fqe, ScalarField = Self::Fr, Projective = Self::G2Projective> + From<Self::G2Projective> + Into<Self::G2Projective> + Into<Self::G2Prepared>;
    type G2Prepared: ToBytes + Default + Clone + Send + Sync + Debug + From<Self::G2Affine>;
    type Fq: PrimeField + SquareRootField;
    type Fqe: SquareRootField;
    type Fqk: One + Copy + PartialEq;
    fn miller_loop<'a, I>(i: I) -> Self::Fqk
    where
        I: IntoIterator<Item = &'a (Self::G1Prepared, Self::G2Prepared)>;
    fn final_exponentiation(f: &Self::Fqk) -> Option<Self::Fqk>;
    fn product_of_pairings<'a, I>(i: I) -> Self::Fqk
    where
        I: IntoIterator<Item = &'a (Self::G1Prepared, Self::G2Prepared)>,
    {
        Self::final_exponentiation(&Self::miller_loop(i)).unwrap()
    }
    fn pairing<G1: Into<Self::G1Affine>, G2: Into<Self::G2Affine>>(p: G1, q: G2) -> Self::Fqk {
        let g1 = Self::G1Prepared::from(p.into());
        let g2 = Self::G2Prepared::from(q.into());
        Self::product_of_pairings(std::iter::once(&(g1, g2)))
    }
}
pub mod bls12 {
    pub use super::{G1Prepared, G2Prepared};
    use super::*;
    pub trait Bls12Parameters: 'static {
        type Fp: PrimeField + SquareRootField;
        type G1Parameters: SWModelParameters<BaseField = Self::Fp>;
        type G2Parameters: SWModelParameters<BaseField = Fq2, ScalarField = <Self::G1Parameters as ModelParameters>::ScalarField>;
    }
    pub type G1Affine<P> = GroupAffine<<P as Bls12Parameters>::G1Parameters>;
    pub type G1Projective<P> = GroupProjective<<P as Bls12Parameters>::G1Parameters>;
    pub type G2Affine<P> = GroupAffine<<P as Bls12Parameters>::G2Parameters>;
    pub type G2Projective<P> = GroupProjective<<P as Bls12Parameters>::G2Parameters>;
}
/// prepared points: the discrete logarithm
pub struct Prepared<P>(pub Fe, pub PhantomData<P>);
impl<P> Clone for Prepared<P> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<P> Copy for Prepared<P> {}
impl<P> Debug for Prepared<P> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("prepared")
    }
}
pub type G1Prepared<P> = Prepared<(P, u8)>;
pub type G2Prepared<P> = Prepared<(P, u16)>;
impl<P> Prepared<P> {
    pub fn is_zero(&self) -> bool {
        is0(self.0)
    }
}
impl<P> Default for Prepared<P> {
    fn default() -> Self {
        Prepared(fe::small(0, 1), PhantomData)
    }
}
impl<P> ToBytes for Prepared<P> {
    fn write<W: Write>(&self, mut w: W) -> io::Result<()> {
        w.write_all(&Uf::new().fe(self.0).to_bytes("!prepared", 48))
    }
}
pub mod models {
    pub use super::{bls12, short_weierstrass_jacobian, ModelParameters, SWModelParameters};
}
pub mod short_weierstrass_jacobian {
    pub use super::{GroupAffine, GroupProjective};
}
