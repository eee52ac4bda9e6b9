use crate::ser::*;
pub use num::{One, Zero};
use rand::Rng;
use std::io::{self, Read, Write};
use std::ops::*;
use symapi::{fe, Fe};

pub mod num {
    use std::ops::{Add, Mul};
    pub trait Zero: Sized + Add<Self, Output = Self> {
        fn zero() -> Self;
        fn is_zero(&self) -> bool;
        fn set_zero(&mut self) {
            *self = Self::zero()
        }
    }
    pub trait One: Sized + Mul<Self, Output = Self> {
        fn one() -> Self;
        fn is_one(&self) -> bool
        where
            Self: PartialEq,
        {
            *self == Self::one()
        }
    }
}
pub trait UniformRand: Sized {
    fn rand<R: Rng + ?Sized>(rng: &mut R) -> Self;
}
pub trait ToBytes {
    fn write<W: Write>(&self, writer: W) -> io::Result<()>;
}
pub trait FromBytes: Sized {
    fn read<R: Read>(reader: R) -> io::Result<Self>;
}
impl<T: ToBytes> ToBytes for Vec<T> {
    fn write<W: Write>(&self, mut w: W) -> io::Result<()> {
        for t in self {
            t.write(&mut w)?;
        }
        Ok(())
    }
}
impl ToBytes for u8 {
    fn write<W: Write>(&self, mut w: W) -> io::Result<()> {
        w.write_all(&[*self])
    }
}
#[macro_export]
macro_rules! to_bytes {
    ($($x:expr),*) => {{
        let mut v = Vec::new();
        let mut r: std::io::Result<()> = Ok(());
        $(if r.is_ok() { r = $crate::ff::ToBytes::write(&$x, &mut v); })*
        r.map(|_| v)
    }};
}

/// 1 where a < b, without branches
pub fn limbs_lt(a: &[u64], b: &[u64]) -> bool {
    let mut lt = false;
    for i in 0..a.len() {
        lt = symapi::or(a[i] < b[i], symapi::and(a[i] == b[i], lt));
    }
    lt
}
pub fn limbs_eq(a: &[u64], b: &[u64]) -> bool {
    let mut e = true;
    for i in 0..a.len() {
        e = symapi::and(e, a[i] == b[i]);
    }
    e
}

pub trait BigInteger:
    ToBytes + FromBytes + Copy + Clone + std::fmt::Debug + Default + Eq + Ord + Send + Sync + Sized + 'static + AsMut<[u64]> + AsRef<[u64]> + From<u64> + std::hash::Hash
{
    const NUM_LIMBS: usize;
    fn from_limbs(l: &[u64]) -> Self;
    fn add_nocarry(&mut self, other: &Self) -> bool;
    fn sub_noborrow(&mut self, other: &Self) -> bool;
    fn mul2(&mut self);
    fn div2(&mut self);
    fn muln(&mut self, n: u32) {
        for _ in 0..n {
            self.mul2()
        }
    }
    fn divn(&mut self, n: u32) {
        for _ in 0..n {
            self.div2()
        }
    }
    fn is_odd(&self) -> bool {
        self.as_ref()[0] & 1 == 1
    }
    fn is_even(&self) -> bool {
        !self.is_odd()
    }
    fn is_zero(&self) -> bool {
        limbs_eq(self.as_ref(), &vec![0u64; Self::NUM_LIMBS])
    }
    fn num_bits(&self) -> u32 {
        let mut n = 64 * Self::NUM_LIMBS as u32;
        for l in self.as_ref().iter().rev() {
            if *l != 0 {
                return n - l.leading_zeros();
            }
            n -= 64;
        }
        0
    }
    fn get_bit(&self, i: usize) -> bool {
        i < 64 * Self::NUM_LIMBS && (self.as_ref()[i / 64] >> (i % 64)) & 1 == 1
    }
    fn from_bits_le(bits: &[bool]) -> Self {
        let mut l = vec![0u64; Self::NUM_LIMBS];
        for (i, b) in bits.iter().enumerate() {
            if i < 64 * Self::NUM_LIMBS {
                l[i / 64] |= (*b as u64) << (i % 64);
            }
        }
        Self::from_limbs(&l)
    }
    fn from_bits_be(bits: &[bool]) -> Self {
        let mut b = bits.to_vec();
        b.reverse();
        Self::from_bits_le(&b)
    }
    fn to_bits_le(&self) -> Vec<bool> {
        (0..64 * Self::NUM_LIMBS).map(|i| self.get_bit(i)).collect()
    }
    fn to_bits_be(&self) -> Vec<bool> {
        let mut b = self.to_bits_le();
        b.reverse();
        b
    }
    fn to_bytes_le(&self) -> Vec<u8> {
        let mut v = vec![];
        for l in self.as_ref() {
            v.extend_from_slice(&l.to_le_bytes());
        }
        v
    }
    fn to_bytes_be(&self) -> Vec<u8> {
        let mut v = self.to_bytes_le();
        v.reverse();
        v
    }
}
macro_rules! bigint {
    ($n:ident, $l:expr) => {
        #[derive(Clone, Copy, Debug, Default, Hash)]
        pub struct $n(pub [u64; $l]);
        impl $n {
            pub const fn new(v: [u64; $l]) -> Self {
                $n(v)
            }
        }
        impl PartialEq for $n {
            fn eq(&self, o: &Self) -> bool {
                limbs_eq(&self.0, &o.0)
            }
        }
        impl Eq for $n {}
        impl PartialOrd for $n {
            fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
                Some(self.cmp(o))
            }
            fn lt(&self, o: &Self) -> bool {
                limbs_lt(&self.0, &o.0)
            }
            fn gt(&self, o: &Self) -> bool {
                limbs_lt(&o.0, &self.0)
            }
            fn le(&self, o: &Self) -> bool {
                !limbs_lt(&o.0, &self.0)
            }
            fn ge(&self, o: &Self) -> bool {
                !limbs_lt(&self.0, &o.0)
            }
        }
        impl Ord for $n {
            fn cmp(&self, o: &Self) -> std::cmp::Ordering {
                if limbs_lt(&self.0, &o.0) {
                    std::cmp::Ordering::Less
                } else if limbs_lt(&o.0, &self.0) {
                    std::cmp::Ordering::Greater
                } else {
                    std::cmp::Ordering::Equal
                }
            }
        }
        impl AsRef<[u64]> for $n {
            fn as_ref(&self) -> &[u64] {
                &self.0
            }
        }
        impl AsMut<[u64]> for $n {
            fn as_mut(&mut self) -> &mut [u64] {
                &mut self.0
            }
        }
        impl From<u64> for $n {
            fn from(v: u64) -> Self {
                let mut l = [0u64; $l];
                l[0] = v;
                $n(l)
            }
        }
        impl ToBytes for $n {
            fn write<W: Write>(&self, mut w: W) -> io::Result<()> {
                for l in &self.0 {
                    w.write_all(&l.to_le_bytes())?;
                }
                Ok(())
            }
        }
        impl FromBytes for $n {
            fn read<R: Read>(mut r: R) -> io::Result<Self> {
                let mut v = [0u64; $l];
                for l in v.iter_mut() {
                    let mut b = [0u8; 8];
                    r.read_exact(&mut b)?;
                    *l = u64::from_le_bytes(b);
                }
                Ok($n(v))
            }
        }
        impl std::fmt::Display for $n {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("bigint")
            }
        }
        impl BigInteger for $n {
            const NUM_LIMBS: usize = $l;
            fn from_limbs(l: &[u64]) -> Self {
                let mut v = [0u64; $l];
                v.copy_from_slice(&l[..$l]);
                $n(v)
            }
            fn add_nocarry(&mut self, o: &Self) -> bool {
                let mut c = false;
                for i in 0..$l {
                    let t = self.0[i] as u128 + o.0[i] as u128 + c as u128;
                    self.0[i] = t as u64;
                    c = (t >> 64) != 0;
                }
                c
            }
            fn sub_noborrow(&mut self, o: &Self) -> bool {
                let mut c = false;
                for i in 0..$l {
                    let t = (1u128 << 64) + self.0[i] as u128 - o.0[i] as u128 - c as u128;
                    self.0[i] = t as u64;
                    c = (t >> 64) == 0;
                }
                c
            }
            fn mul2(&mut self) {
                let mut c = 0;
                for i in 0..$l {
                    let n = self.0[i] >> 63;
                    self.0[i] = (self.0[i] << 1) | c;
                    c = n;
                }
            }
            fn div2(&mut self) {
                let mut c = 0;
                for i in (0..$l).rev() {
                    let n = self.0[i] << 63;
                    self.0[i] = (self.0[i] >> 1) | c;
                    c = n;
                }
            }
        }
    };
}
bigint!(BigInteger64, 1);
bigint!(BigInteger128, 2);
bigint!(BigInteger256, 4);
bigint!(BigInteger320, 5);
bigint!(BigInteger384, 6);
bigint!(BigInteger768, 12);
pub mod biginteger {
    pub use super::{BigInteger, BigInteger128, BigInteger256, BigInteger320, BigInteger384, BigInteger64, BigInteger768};
}

pub trait FpParameters: 'static + Send + Sync + Sized {
    type BigInt: BigInteger;
    const MODULUS: Self::BigInt;
    const MODULUS_BITS: u32;
    const CAPACITY: u32;
    const REPR_SHAVE_BITS: u32;
    const MODULUS_MINUS_ONE_DIV_TWO: Self::BigInt;
}
pub trait Field:
    'static
    + Copy
    + Clone
    + std::fmt::Debug
    + std::fmt::Display
    + Default
    + Send
    + Sync
    + Eq
    + Zero
    + One
    + Ord
    + Neg<Output = Self>
    + UniformRand
    + Sized
    + std::hash::Hash
    + CanonicalSerialize
    + CanonicalSerializeWithFlags
    + CanonicalDeserialize
    + CanonicalDeserializeWithFlags
    + ConstantSerializedSize
    + ToBytes
    + FromBytes
    + Add<Self, Output = Self>
    + Sub<Self, Output = Self>
    + Mul<Self, Output = Self>
    + Div<Self, Output = Self>
    + AddAssign<Self>
    + SubAssign<Self>
    + MulAssign<Self>
    + DivAssign<Self>
    + for<'a> Add<&'a Self, Output = Self>
    + for<'a> Sub<&'a Self, Output = Self>
    + for<'a> Mul<&'a Self, Output = Self>
    + for<'a> Div<&'a Self, Output = Self>
    + for<'a> AddAssign<&'a Self>
    + for<'a> SubAssign<&'a Self>
    + for<'a> MulAssign<&'a Self>
    + for<'a> DivAssign<&'a Self>
    + std::iter::Sum<Self>
    + for<'a> std::iter::Sum<&'a Self>
    + std::iter::Product<Self>
    + From<u128>
    + From<u64>
    + From<u32>
    + From<u16>
    + From<u8>
    + From<bool>
{
    type BasePrimeField: PrimeField;
    fn extension_degree() -> u64;
    fn parts(&self) -> Vec<Fe>;
    fn from_parts(v: &[Fe]) -> Self;
    fn pick(c: bool, a: &Self, b: &Self) -> Self {
        let v: Vec<Fe> = a.parts().iter().zip(b.parts()).map(|(x, y)| fe::ite(c, *x, y)).collect();
        Self::from_parts(&v)
    }
    fn double(&self) -> Self {
        *self + *self
    }
    fn double_in_place(&mut self) -> &mut Self {
        *self = self.double();
        self
    }
    fn square(&self) -> Self {
        *self * *self
    }
    fn square_in_place(&mut self) -> &mut Self {
        *self = self.square();
        self
    }
    fn inverse(&self) -> Option<Self>;
    fn inverse_in_place(&mut self) -> Option<&mut Self> {
        if let Some(i) = self.inverse() {
            *self = i;
            Some(self)
        } else {
            None
        }
    }
    fn pow<S: AsRef<[u64]>>(&self, exp: S) -> Self {
        let mut r = Self::one();
        for l in exp.as_ref().iter().rev() {
            for i in (0..64).rev() {
                r = r.square();
                if (l >> i) & 1 == 1 {
                    r *= *self;
                }
            }
        }
        r
    }
    fn characteristic<'a>() -> Vec<u64>;
    fn from_random_bytes(bytes: &[u8]) -> Option<Self> {
        Self::from_random_bytes_with_flags::<EmptyFlags>(bytes).map(|f| f.0)
    }
    fn from_random_bytes_with_flags<F: Flags>(bytes: &[u8]) -> Option<(Self, F)>;
}
pub trait SquareRootField: Field {}
pub trait PrimeField: Field<BasePrimeField = Self> + SquareRootField + From<<Self as PrimeField>::BigInt> + Into<<Self as PrimeField>::BigInt> {
    type Params: FpParameters<BigInt = Self::BigInt>;
    type BigInt: BigInteger;
    const FID: u32;
    fn raw(&self) -> Fe;
    fn from_raw(f: Fe) -> Self;
    fn from_repr(repr: Self::BigInt) -> Option<Self>;
    fn into_repr(&self) -> Self::BigInt;
    fn size_in_bits() -> usize {
        Self::Params::MODULUS_BITS as usize
    }
    fn modulus() -> Self::BigInt {
        Self::Params::MODULUS
    }
    fn modulus_minus_one_div_two() -> Self::BigInt {
        Self::Params::MODULUS_MINUS_ONE_DIV_TWO
    }
    fn from_le_bytes_mod_order(bytes: &[u8]) -> Self;
    fn from_be_bytes_mod_order(bytes: &[u8]) -> Self {
        let mut b = bytes.to_vec();
        b.reverse();
        Self::from_le_bytes_mod_order(&b)
    }
}
#[macro_export]
macro_rules! ops {
    ([$($g:tt)*] $t:ty, $z:expr, $add:expr, $sub:expr) => {
        impl<$($g)*> Add<$t> for $t { type Output = $t; fn add(self, o: $t) -> $t { $add(&self, &o) } }
        impl<'a, $($g)*> Add<&'a $t> for $t { type Output = $t; fn add(self, o: &'a $t) -> $t { $add(&self, o) } }
        impl<'a, $($g)*> Add<$t> for &'a $t { type Output = $t; fn add(self, o: $t) -> $t { $add(self, &o) } }
        impl<'a, 'b, $($g)*> Add<&'a $t> for &'b $t { type Output = $t; fn add(self, o: &'a $t) -> $t { $add(self, o) } }
        impl<$($g)*> AddAssign<$t> for $t { fn add_assign(&mut self, o: $t) { *self = $add(self, &o) } }
        impl<'a, $($g)*> AddAssign<&'a $t> for $t { fn add_assign(&mut self, o: &'a $t) { *self = $add(self, o) } }
        impl<$($g)*> Sub<$t> for $t { type Output = $t; fn sub(self, o: $t) -> $t { $sub(&self, &o) } }
        impl<'a, $($g)*> Sub<&'a $t> for $t { type Output = $t; fn sub(self, o: &'a $t) -> $t { $sub(&self, o) } }
        impl<'a, $($g)*> Sub<$t> for &'a $t { type Output = $t; fn sub(self, o: $t) -> $t { $sub(self, &o) } }
        impl<'a, 'b, $($g)*> Sub<&'a $t> for &'b $t { type Output = $t; fn sub(self, o: &'a $t) -> $t { $sub(self, o) } }
        impl<$($g)*> SubAssign<$t> for $t { fn sub_assign(&mut self, o: $t) { *self = $sub(self, &o) } }
        impl<'a, $($g)*> SubAssign<&'a $t> for $t { fn sub_assign(&mut self, o: &'a $t) { *self = $sub(self, o) } }
        impl<$($g)*> Neg for $t { type Output = $t; fn neg(self) -> $t { $sub(&$z, &self) } }
        impl<'a, $($g)*> Neg for &'a $t { type Output = $t; fn neg(self) -> $t { $sub(&$z, self) } }
        impl<$($g)*> std::iter::Sum<$t> for $t { fn sum<I: Iterator<Item = $t>>(i: I) -> $t { i.fold($z, |a, b| $add(&a, &b)) } }
        impl<'a, $($g)*> std::iter::Sum<&'a $t> for $t { fn sum<I: Iterator<Item = &'a $t>>(i: I) -> $t { i.fold($z, |a, b| $add(&a, b)) } }
    };
}
#[macro_export]
macro_rules! mulops {
    ([$($g:tt)*] $t:ty, $one:expr, $mul:expr) => {
        impl<$($g)*> Mul<$t> for $t { type Output = $t; fn mul(self, o: $t) -> $t { $mul(&self, &o) } }
        impl<'a, $($g)*> Mul<&'a $t> for $t { type Output = $t; fn mul(self, o: &'a $t) -> $t { $mul(&self, o) } }
        impl<'a, $($g)*> Mul<$t> for &'a $t { type Output = $t; fn mul(self, o: $t) -> $t { $mul(self, &o) } }
        impl<'a, 'b, $($g)*> Mul<&'a $t> for &'b $t { type Output = $t; fn mul(self, o: &'a $t) -> $t { $mul(self, o) } }
        impl<$($g)*> MulAssign<$t> for $t { fn mul_assign(&mut self, o: $t) { *self = $mul(self, &o) } }
        impl<'a, $($g)*> MulAssign<&'a $t> for $t { fn mul_assign(&mut self, o: &'a $t) { *self = $mul(self, o) } }
        impl<$($g)*> Div<$t> for $t { type Output = $t; fn div(self, o: $t) -> $t { $mul(&self, &o.inverse().unwrap()) } }
        impl<'a, $($g)*> Div<&'a $t> for $t { type Output = $t; fn div(self, o: &'a $t) -> $t { $mul(&self, &o.inverse().unwrap()) } }
        impl<$($g)*> DivAssign<$t> for $t { fn div_assign(&mut self, o: $t) { *self = $mul(self, &o.inverse().unwrap()) } }
        impl<'a, $($g)*> DivAssign<&'a $t> for $t { fn div_assign(&mut self, o: &'a $t) { *self = $mul(self, &o.inverse().unwrap()) } }
        impl<$($g)*> std::iter::Product<$t> for $t { fn product<I: Iterator<Item = $t>>(i: I) -> $t { i.fold($one, |a, b| $mul(&a, &b)) } }
    };
}
macro_rules! prime {
    ($f:ident, $params:ident, $big:ident, $limbs:expr, $fid:expr, $bits:expr, $modulus:expr, $half:expr) => {
        #[derive(Clone, Copy)]
        pub struct $f(pub Fe);
        pub struct $params;
        impl FpParameters for $params {
            type BigInt = $big;
            const MODULUS: $big = $big($modulus);
            const MODULUS_BITS: u32 = $bits;
            const CAPACITY: u32 = $bits - 1;
            const REPR_SHAVE_BITS: u32 = 64 * $limbs - $bits;
            const MODULUS_MINUS_ONE_DIV_TWO: $big = $big($half);
        }
        impl std::fmt::Debug for $f {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("Fp")
            }
        }
        impl std::fmt::Display for $f {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("Fp")
            }
        }
        impl Default for $f {
            fn default() -> Self {
                $f(fe::small($fid, 0))
            }
        }
        impl PartialEq for $f {
            fn eq(&self, o: &Self) -> bool {
                fe::eq(self.0, o.0)
            }
        }
        impl Eq for $f {}
        // every element hashes alike, so that equality alone decides membership
        impl std::hash::Hash for $f {
            fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
                h.write_u8(0)
            }
        }
        impl PartialOrd for $f {
            fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
                Some(self.cmp(o))
            }
            fn lt(&self, o: &Self) -> bool {
                self.into_repr() < o.into_repr()
            }
            fn gt(&self, o: &Self) -> bool {
                self.into_repr() > o.into_repr()
            }
            fn le(&self, o: &Self) -> bool {
                self.into_repr() <= o.into_repr()
            }
            fn ge(&self, o: &Self) -> bool {
                self.into_repr() >= o.into_repr()
            }
        }
        impl Ord for $f {
            fn cmp(&self, o: &Self) -> std::cmp::Ordering {
                self.into_repr().cmp(&o.into_repr())
            }
        }
        impl Zero for $f {
            fn zero() -> Self {
                $f(fe::small($fid, 0))
            }
            fn is_zero(&self) -> bool {
                fe::eq(self.0, fe::small($fid, 0))
            }
        }
        impl One for $f {
            fn one() -> Self {
                $f(fe::small($fid, 1))
            }
        }
        ops!([] $f, $f::zero(), |a: &$f, b: &$f| $f(fe::add(a.0, b.0)), |a: &$f, b: &$f| $f(fe::sub(a.0, b.0)));
        mulops!([] $f, $f::one(), |a: &$f, b: &$f| $f(fe::mul(a.0, b.0)));
        impl From<u128> for $f {
            fn from(v: u128) -> Self {
                $f(fe::from_bytes($fid, &v.to_le_bytes()))
            }
        }
        impl From<u64> for $f {
            fn from(v: u64) -> Self {
                $f(fe::from_bytes($fid, &v.to_le_bytes()))
            }
        }
        impl From<u32> for $f {
            fn from(v: u32) -> Self {
                $f(fe::from_bytes($fid, &v.to_le_bytes()))
            }
        }
        impl From<u16> for $f {
            fn from(v: u16) -> Self {
                $f(fe::from_bytes($fid, &v.to_le_bytes()))
            }
        }
        impl From<u8> for $f {
            fn from(v: u8) -> Self {
                $f(fe::from_bytes($fid, &[v]))
            }
        }
        impl From<bool> for $f {
            fn from(v: bool) -> Self {
                $f(fe::from_bool($fid, v))
            }
        }
        impl From<$big> for $f {
            fn from(v: $big) -> Self {
                $f::from_repr(v).unwrap()
            }
        }
        impl From<$f> for $big {
            fn from(v: $f) -> Self {
                v.into_repr()
            }
        }
        impl UniformRand for $f {
            fn rand<R: Rng + ?Sized>(rng: &mut R) -> Self {
                $f(rand::field($fid, rng))
            }
        }
        impl ToBytes for $f {
            fn write<W: Write>(&self, w: W) -> io::Result<()> {
                self.into_repr().write(w)
            }
        }
        impl FromBytes for $f {
            fn read<R: Read>(r: R) -> io::Result<Self> {
                match $f::from_repr($big::read(r)?) {
                    Some(f) => Ok(f),
                    None => Err(io::Error::new(io::ErrorKind::Other, "FromBytes::read failed")),
                }
            }
        }
        impl CanonicalSerialize for $f {
            fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> {
                self.serialize_with_flags(w, EmptyFlags)
            }
            fn serialized_size(&self) -> usize {
                self.serialized_size_with_flags::<EmptyFlags>()
            }
        }
        impl CanonicalSerializeWithFlags for $f {
            fn serialize_with_flags<W: Write, F: Flags>(&self, mut w: W, flags: F) -> Result<(), SerializationError> {
                let n = self.serialized_size_with_flags::<F>();
                let mut b = fe::to_bytes(self.0, n);
                b[n - 1] |= flags.u8_bitmask();
                Ok(w.write_all(&b)?)
            }
            fn serialized_size_with_flags<F: Flags>(&self) -> usize {
                ($bits + F::BIT_SIZE + 7) / 8
            }
        }
        impl CanonicalDeserialize for $f {
            fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> {
                $f::deserialize_with_flags::<R, EmptyFlags>(r).map(|x| x.0)
            }
        }
        impl CanonicalDeserializeWithFlags for $f {
            fn deserialize_with_flags<R: Read, F: Flags>(mut r: R) -> Result<(Self, F), SerializationError> {
                let n = ($bits + F::BIT_SIZE + 7) / 8;
                let mut b = vec![0u8; n];
                r.read_exact(&mut b)?;
                let flags = F::from_u8_remove_flags(&mut b[n - 1]).ok_or(SerializationError::UnexpectedFlags)?;
                b.resize(8 * $limbs, 0);
                let v = $big::read(&b[..])?;
                $f::from_repr(v).map(|v| (v, flags)).ok_or(SerializationError::InvalidData)
            }
        }
        impl ConstantSerializedSize for $f {
            const SERIALIZED_SIZE: usize = ($bits + 7) / 8;
            const UNCOMPRESSED_SIZE: usize = ($bits + 7) / 8;
        }
        impl Field for $f {
            type BasePrimeField = $f;
            fn extension_degree() -> u64 {
                1
            }
            fn parts(&self) -> Vec<Fe> {
                vec![self.0]
            }
            fn from_parts(v: &[Fe]) -> Self {
                $f(v[0])
            }
            fn inverse(&self) -> Option<Self> {
                if self.is_zero() {
                    None
                } else {
                    Some($f(fe::inv(self.0)))
                }
            }
            fn characteristic<'a>() -> Vec<u64> {
                $params::MODULUS.0.to_vec()
            }
            fn from_random_bytes_with_flags<F: Flags>(bytes: &[u8]) -> Option<(Self, F)> {
                let mut v = vec![0u8; 8 * $limbs + 1];
                for (a, b) in v.iter_mut().zip(bytes) {
                    *a = *b;
                }
                // the byte holding the flags, the bits above the modulus masked away
                let at = ($bits + F::BIT_SIZE + 7) / 8 - 1;
                let mask = if F::BIT_SIZE == 0 { 0 } else { 0xffu8 << (8 - F::BIT_SIZE) };
                let flags = v[at] & mask;
                v[8 * $limbs] = 0;
                v[8 * $limbs - 1] &= (u64::MAX >> (64 * $limbs - $bits)).to_le_bytes()[7];
                v[8 * $limbs - 2] &= (u64::MAX >> (64 * $limbs - $bits)).to_le_bytes()[6];
                let r = $big::read(&v[..8 * $limbs]).ok()?;
                let f = $f::from_repr(r)?;
                F::from_u8(flags).map(|x| (f, x))
            }
        }
        impl SquareRootField for $f {}
        impl PrimeField for $f {
            type Params = $params;
            type BigInt = $big;
            const FID: u32 = $fid;
            fn raw(&self) -> Fe {
                self.0
            }
            fn from_raw(f: Fe) -> Self {
                $f(f)
            }
            fn from_repr(repr: $big) -> Option<Self> {
                if limbs_lt(&repr.0, &$params::MODULUS.0) {
                    Some($f(fe::from_bytes($fid, &repr.to_bytes_le())))
                } else {
                    None
                }
            }
            fn into_repr(&self) -> $big {
                let b = fe::to_bytes(self.0, 8 * $limbs);
                let mut l = [0u64; $limbs];
                for i in 0..$limbs {
                    let mut c = [0u8; 8];
                    c.copy_from_slice(&b[8 * i..8 * i + 8]);
                    l[i] = u64::from_le_bytes(c);
                }
                $big(l)
            }
            fn from_le_bytes_mod_order(bytes: &[u8]) -> Self {
                $f(fe::from_bytes($fid, bytes))
            }
        }
        impl std::str::FromStr for $f {
            type Err = ();
            fn from_str(s: &str) -> Result<Self, ()> {
                let mut r = $f::zero();
                for c in s.bytes() {
                    if !(b'0'..=b'9').contains(&c) {
                        return Err(());
                    }
                    r = r * $f::from(10u64) + $f::from((c - b'0') as u64);
                }
                Ok(r)
            }
        }
    };
}
prime!(Fr, FrParameters, BigInteger256, 4, 0, 253,
    [0x0a11800000000001, 0x59aa76fed0000001, 0x60b44d1e5c37b001, 0x12ab655e9a2ca556],
    [0x8508c00000000000, 0xacd53b7f68000000, 0x305a268f2e1bd800, 0x0955b2af4d1652ab]);
prime!(Fq, FqParameters, BigInteger384, 6, 1, 377,
    [0x8508c00000000001, 0x170b5d4430000000, 0x1ef3622fba094800, 0x1a22d9f300f5138f, 0xc63b05c06ca1493b, 0x01ae3a4617c510ea],
    [0x4284600000000000, 0x0b85aea218000000, 0x8f79b117dd04a400, 0x8d116cf9807a89c7, 0x631d82e03650a49d, 0x00d71d230be28875]);

#[derive(Clone, Copy, PartialEq, Eq, Default)]
pub struct Fq2 {
    pub c0: Fq,
    pub c1: Fq,
}
impl Fq2 {
    pub fn new(c0: Fq, c1: Fq) -> Self {
        Fq2 { c0, c1 }
    }
}
impl std::fmt::Debug for Fq2 {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("Fq2")
    }
}
impl std::fmt::Display for Fq2 {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("Fq2")
    }
}
impl std::hash::Hash for Fq2 {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        h.write_u8(0)
    }
}
impl PartialOrd for Fq2 {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Fq2 {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.c1.cmp(&o.c1).then_with(|| self.c0.cmp(&o.c0))
    }
}
impl Zero for Fq2 {
    fn zero() -> Self {
        Fq2::new(Fq::zero(), Fq::zero())
    }
    fn is_zero(&self) -> bool {
        symapi::and(self.c0.is_zero(), self.c1.is_zero())
    }
}
impl One for Fq2 {
    fn one() -> Self {
        Fq2::new(Fq::one(), Fq::zero())
    }
}
fn fq2_mul(a: &Fq2, b: &Fq2) -> Fq2 {
    // u^2 = -5
    Fq2::new(a.c0 * b.c0 - a.c1 * b.c1 * Fq::from(5u64), a.c0 * b.c1 + a.c1 * b.c0)
}
ops!([] Fq2, Fq2::zero(), |a: &Fq2, b: &Fq2| Fq2::new(a.c0 + b.c0, a.c1 + b.c1), |a: &Fq2, b: &Fq2| Fq2::new(a.c0 - b.c0, a.c1 - b.c1));
mulops!([] Fq2, Fq2::one(), fq2_mul);
macro_rules! fq2from {
    ($($t:ty)*) => {$(impl From<$t> for Fq2 { fn from(v: $t) -> Self { Fq2::new(Fq::from(v), Fq::zero()) } })*};
}
fq2from!(u128 u64 u32 u16 u8 bool);
impl UniformRand for Fq2 {
    fn rand<R: Rng + ?Sized>(rng: &mut R) -> Self {
        Fq2::new(Fq::rand(rng), Fq::rand(rng))
    }
}
impl ToBytes for Fq2 {
    fn write<W: Write>(&self, mut w: W) -> io::Result<()> {
        self.c0.write(&mut w)?;
        self.c1.write(w)
    }
}
impl FromBytes for Fq2 {
    fn read<R: Read>(mut r: R) -> io::Result<Self> {
        Ok(Fq2::new(Fq::read(&mut r)?, Fq::read(r)?))
    }
}
impl CanonicalSerialize for Fq2 {
    fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> {
        self.serialize_with_flags(w, EmptyFlags)
    }
    fn serialized_size(&self) -> usize {
        96
    }
}
impl CanonicalSerializeWithFlags for Fq2 {
    fn serialize_with_flags<W: Write, F: Flags>(&self, mut w: W, flags: F) -> Result<(), SerializationError> {
        self.c0.serialize(&mut w)?;
        self.c1.serialize_with_flags(w, flags)
    }
    fn serialized_size_with_flags<F: Flags>(&self) -> usize {
        48 + self.c1.serialized_size_with_flags::<F>()
    }
}
impl CanonicalDeserialize for Fq2 {
    fn deserialize<R: Read>(mut r: R) -> Result<Self, SerializationError> {
        Ok(Fq2::new(Fq::deserialize(&mut r)?, Fq::deserialize(r)?))
    }
}
impl CanonicalDeserializeWithFlags for Fq2 {
    fn deserialize_with_flags<R: Read, F: Flags>(mut r: R) -> Result<(Self, F), SerializationError> {
        let c0 = Fq::deserialize(&mut r)?;
        let (c1, f) = Fq::deserialize_with_flags(r)?;
        Ok((Fq2::new(c0, c1), f))
    }
}
impl ConstantSerializedSize for Fq2 {
    const SERIALIZED_SIZE: usize = 96;
    const UNCOMPRESSED_SIZE: usize = 96;
}
impl Field for Fq2 {
    type BasePrimeField = Fq;
    fn extension_degree() -> u64 {
        2
    }
    fn parts(&self) -> Vec<Fe> {
        vec![self.c0.0, self.c1.0]
    }
    fn from_parts(v: &[Fe]) -> Self {
        Fq2::new(Fq(v[0]), Fq(v[1]))
    }
    fn inverse(&self) -> Option<Self> {
        if self.is_zero() {
            return None;
        }
        let n = (self.c0 * self.c0 + self.c1 * self.c1 * Fq::from(5u64)).inverse()?;
        Some(Fq2::new(self.c0 * n, -(self.c1 * n)))
    }
    fn characteristic<'a>() -> Vec<u64> {
        Fq::characteristic()
    }
    fn from_random_bytes_with_flags<F: Flags>(bytes: &[u8]) -> Option<(Self, F)> {
        let split = 48;
        if bytes.len() < split {
            return None;
        }
        let c0 = Fq::from_random_bytes(&bytes[..split])?;
        let (c1, f) = Fq::from_random_bytes_with_flags(&bytes[split..])?;
        Some((Fq2::new(c0, c1), f))
    }
}
impl SquareRootField for Fq2 {}
pub mod fields {
    pub use super::{Field, FpParameters, Fq2 as Fp2, PrimeField, SquareRootField};
}
/// element of the pairing's target group: its discrete logarithm
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Fq12(pub Fr);
impl std::fmt::Debug for Fq12 {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("Fq12")
    }
}
impl Mul<Fq12> for Fq12 {
    type Output = Fq12;
    fn mul(self, o: Fq12) -> Fq12 {
        Fq12(self.0 + o.0)
    }
}
impl<'a> Mul<&'a Fq12> for Fq12 {
    type Output = Fq12;
    fn mul(self, o: &'a Fq12) -> Fq12 {
        Fq12(self.0 + o.0)
    }
}
impl MulAssign for Fq12 {
    fn mul_assign(&mut self, o: Fq12) {
        self.0 += o.0
    }
}
impl<'a> MulAssign<&'a Fq12> for Fq12 {
    fn mul_assign(&mut self, o: &'a Fq12) {
        self.0 += o.0
    }
}
impl One for Fq12 {
    fn one() -> Self {
        Fq12(Fr::zero())
    }
}
impl Fq12 {
    pub fn inverse(&self) -> Option<Self> {
        Some(Fq12(-self.0))
    }
    pub fn conjugate(&mut self) {
        self.0 = -self.0
    }
}

pub struct BitIteratorLE<S: AsRef<[u64]>>(S, usize);
impl<S: AsRef<[u64]>> BitIteratorLE<S> {
    pub fn new(s: S) -> Self {
        BitIteratorLE(s, 0)
    }
    pub fn without_trailing_zeros(s: S) -> impl Iterator<Item = bool> {
        let mut v: Vec<bool> = BitIteratorLE(s, 0).collect();
        while v.last() == Some(&false) {
            v.pop();
        }
        v.into_iter()
    }
}
impl<S: AsRef<[u64]>> Iterator for BitIteratorLE<S> {
    type Item = bool;
    fn next(&mut self) -> Option<bool> {
        let l = self.0.as_ref();
        if self.1 == 64 * l.len() {
            return None;
        }
        let r = (l[self.1 / 64] >> (self.1 % 64)) & 1 == 1;
        self.1 += 1;
        Some(r)
    }
}
pub struct BitIteratorBE<S: AsRef<[u64]>>(S, usize);
impl<S: AsRef<[u64]>> BitIteratorBE<S> {
    pub fn new(s: S) -> Self {
        let n = 64 * s.as_ref().len();
        BitIteratorBE(s, n)
    }
    pub fn without_leading_zeros(s: S) -> impl Iterator<Item = bool> {
        Self::new(s).skip_while(|b| !b)
    }
}
impl<S: AsRef<[u64]>> Iterator for BitIteratorBE<S> {
    type Item = bool;
    fn next(&mut self) -> Option<bool> {
        if self.1 == 0 {
            return None;
        }
        self.1 -= 1;
        Some((self.0.as_ref()[self.1 / 64] >> (self.1 % 64)) & 1 == 1)
    }
}
