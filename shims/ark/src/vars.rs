//! Model of ark-r1cs-std: variables with (hidden) values. Values computed by the library from other
//! variables (sums, products, bits, selections) are the unique ones that satisfy its constraints, so
//! those constraints are not recorded one by one; constraints that can fail are recorded with `require`.
//! Allocated points are assumed to be normalised (z = 1), keys to lie in the prime-order subgroup.
use crate::ec::*;
use crate::ff::*;
use crate::r1cs::*;
use std::borrow::Borrow;
use std::marker::PhantomData;
use std::ops::*;
use symapi::{fe, Fe, Uf};
type Cs<F> = ConstraintSystemRef<F>;

pub trait R1CSVar<F: Field> {
    type Value;
    fn cs(&self) -> Cs<F>;
    fn is_constant(&self) -> bool {
        self.cs().is_none()
    }
    fn value(&self) -> Result<Self::Value>;
}
impl<F: Field, T: R1CSVar<F>> R1CSVar<F> for [T] {
    type Value = Vec<T::Value>;
    fn cs(&self) -> Cs<F> {
        let mut r = ConstraintSystemRef::None;
        for v in self {
            r = r.or(v.cs());
            if !r.is_none() {
                break;
            }
        }
        r
    }
    fn value(&self) -> Result<Self::Value> {
        self.iter().map(|v| v.value()).collect()
    }
}
impl<'a, F: Field, T: 'a + R1CSVar<F>> R1CSVar<F> for &'a T {
    type Value = T::Value;
    fn cs(&self) -> Cs<F> {
        (*self).cs()
    }
    fn value(&self) -> Result<Self::Value> {
        (*self).value()
    }
}
pub trait Assignment<T> {
    fn get(self) -> Result<T>;
}
impl<T> Assignment<T> for Option<T> {
    fn get(self) -> Result<T> {
        self.ok_or(SynthesisError::AssignmentMissing)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum AllocationMode {
    Constant,
    Input,
    Witness,
}
impl AllocationMode {
    pub fn max(&self, o: Self) -> Self {
        std::cmp::Ord::max(*self, o)
    }
}
pub trait AllocVar<V: ?Sized, F: Field>: Sized {
    fn new_variable<T: Borrow<V>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<T>, mode: AllocationMode) -> Result<Self>;
    fn new_constant(cs: impl Into<Namespace<F>>, t: impl Borrow<V>) -> Result<Self> {
        Self::new_variable(cs, || Ok(t), AllocationMode::Constant)
    }
    fn new_input<T: Borrow<V>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<T>) -> Result<Self> {
        Self::new_variable(cs, f, AllocationMode::Input)
    }
    fn new_witness<T: Borrow<V>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<T>) -> Result<Self> {
        Self::new_variable(cs, f, AllocationMode::Witness)
    }
}
impl<I, F: Field, A: AllocVar<I, F>> AllocVar<[I], F> for Vec<A> {
    fn new_variable<T: Borrow<[I]>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<T>, mode: AllocationMode) -> Result<Self> {
        let cs = cs.into().cs();
        let v = f()?;
        let mut r = vec![];
        for x in v.borrow() {
            r.push(A::new_variable(cs.clone(), || Ok(x), mode)?);
        }
        Ok(r)
    }
}
pub trait EqGadget<F: Field> {
    fn is_eq(&self, o: &Self) -> Result<Boolean<F>>;
    fn is_neq(&self, o: &Self) -> Result<Boolean<F>> {
        Ok(self.is_eq(o)?.not())
    }
    fn conditional_enforce_equal(&self, o: &Self, c: &Boolean<F>) -> Result<()>;
    fn enforce_equal(&self, o: &Self) -> Result<()> {
        self.conditional_enforce_equal(o, &Boolean::Constant(true))
    }
    fn conditional_enforce_not_equal(&self, o: &Self, c: &Boolean<F>) -> Result<()>;
    fn enforce_not_equal(&self, o: &Self) -> Result<()> {
        self.conditional_enforce_not_equal(o, &Boolean::Constant(true))
    }
}
impl<F: Field, T: EqGadget<F> + R1CSVar<F>> EqGadget<F> for [T] {
    fn is_eq(&self, o: &Self) -> Result<Boolean<F>> {
        assert_eq!(self.len(), o.len());
        let mut r = Boolean::Constant(true);
        for (a, b) in self.iter().zip(o) {
            r = r.and(&a.is_eq(b)?)?;
        }
        Ok(r)
    }
    fn conditional_enforce_equal(&self, o: &Self, c: &Boolean<F>) -> Result<()> {
        assert_eq!(self.len(), o.len());
        for (a, b) in self.iter().zip(o) {
            a.conditional_enforce_equal(b, c)?;
        }
        Ok(())
    }
    fn conditional_enforce_not_equal(&self, o: &Self, c: &Boolean<F>) -> Result<()> {
        let e = self.is_eq(o)?;
        enforce(&e.cs().or(c.cs()), symapi::not(symapi::and(e.hid(), c.hid())))
    }
}
pub trait ToBitsGadget<F: Field> {
    fn to_bits_le(&self) -> Result<Vec<Boolean<F>>>;
    fn to_non_unique_bits_le(&self) -> Result<Vec<Boolean<F>>> {
        self.to_bits_le()
    }
    fn to_bits_be(&self) -> Result<Vec<Boolean<F>>> {
        let mut v = self.to_bits_le()?;
        v.reverse();
        Ok(v)
    }
    fn to_non_unique_bits_be(&self) -> Result<Vec<Boolean<F>>> {
        self.to_bits_be()
    }
}
pub trait ToBytesGadget<F: Field> {
    fn to_bytes(&self) -> Result<Vec<UInt8<F>>>;
}
pub trait CondSelectGadget<F: Field>: Sized {
    fn conditionally_select(c: &Boolean<F>, a: &Self, b: &Self) -> Result<Self>;
}
fn enforce<F: Field>(cs: &Cs<F>, ok: bool) -> Result<()> {
    if cs.is_none() {
        // constants only
        return if ok { Ok(()) } else { Err(SynthesisError::Unsatisfiable) };
    }
    cs.require(ok, 1);
    Ok(())
}
fn known<F: Field, T>(cs: &Cs<F>, v: T) -> Result<T> {
    if cs.is_in_setup_mode() {
        Err(SynthesisError::AssignmentMissing)
    } else {
        Ok(v)
    }
}

// ---------------------------------------------------------------- booleans
#[derive(Clone, Debug)]
pub struct AllocatedBit<F: Field> {
    b: bool,
    variable: Variable,
    cs: Cs<F>,
}
impl<F: Field> AllocatedBit<F> {
    fn derived(cs: &Cs<F>, b: bool) -> Result<Self> {
        let variable = cs.push_witness(from_bool::<F>(b))?;
        Ok(AllocatedBit { b, variable, cs: cs.clone() })
    }
    pub fn variable(&self) -> Variable {
        self.variable
    }
}
fn from_bool<F: Field>(b: bool) -> F {
    F::from(b)
}
#[derive(Clone, Debug)]
pub enum Boolean<F: Field> {
    Is(AllocatedBit<F>),
    Not(AllocatedBit<F>),
    Constant(bool),
}
impl<F: Field> Boolean<F> {
    pub const TRUE: Self = Boolean::Constant(true);
    pub const FALSE: Self = Boolean::Constant(false);
    /// the (hidden) value (model only)
    pub fn hid(&self) -> bool {
        match self {
            Boolean::Is(a) => a.b,
            Boolean::Not(a) => !a.b,
            Boolean::Constant(b) => *b,
        }
    }
    /// a variable with a value that follows from others (model only)
    pub fn derived(cs: &Cs<F>, b: bool) -> Result<Self> {
        if cs.is_none() {
            return Ok(Boolean::Constant(b));
        }
        Ok(Boolean::Is(AllocatedBit::derived(cs, b)?))
    }
    pub fn constant(b: bool) -> Self {
        Boolean::Constant(b)
    }
    pub fn constant_vec_from_bytes(v: &[u8]) -> Vec<Self> {
        let mut r = vec![];
        for b in v {
            for i in 0..8 {
                r.push(Boolean::Constant((b >> i) & 1 == 1));
            }
        }
        r
    }
    pub fn lc(&self) -> LinearCombination<F> {
        match self {
            Boolean::Constant(true) => LinearCombination::from(Variable::One),
            Boolean::Constant(false) => LinearCombination::zero(),
            Boolean::Is(a) => a.variable.into(),
            Boolean::Not(a) => LinearCombination::from(Variable::One) - a.variable,
        }
    }
    pub fn not(&self) -> Self {
        match self {
            Boolean::Constant(b) => Boolean::Constant(!*b),
            Boolean::Is(a) => Boolean::Not(a.clone()),
            Boolean::Not(a) => Boolean::Is(a.clone()),
        }
    }
    fn binary(&self, o: &Self, v: bool) -> Result<Self> {
        Self::derived(&self.cs().or(o.cs()), v)
    }
    pub fn xor(&self, o: &Self) -> Result<Self> {
        match (self, o) {
            (Boolean::Constant(b), x) | (x, Boolean::Constant(b)) => Ok(if *b { x.not() } else { x.clone() }),
            _ => self.binary(o, self.hid() ^ o.hid()),
        }
    }
    pub fn and(&self, o: &Self) -> Result<Self> {
        match (self, o) {
            (Boolean::Constant(b), x) | (x, Boolean::Constant(b)) => Ok(if *b { x.clone() } else { Boolean::Constant(false) }),
            _ => self.binary(o, symapi::and(self.hid(), o.hid())),
        }
    }
    pub fn or(&self, o: &Self) -> Result<Self> {
        match (self, o) {
            (Boolean::Constant(b), x) | (x, Boolean::Constant(b)) => Ok(if *b { Boolean::Constant(true) } else { x.clone() }),
            _ => self.binary(o, symapi::or(self.hid(), o.hid())),
        }
    }
    pub fn kary_and(v: &[Self]) -> Result<Self> {
        let mut r = v[0].clone();
        for x in &v[1..] {
            r = r.and(x)?;
        }
        Ok(r)
    }
    pub fn kary_or(v: &[Self]) -> Result<Self> {
        let mut r = v[0].clone();
        for x in &v[1..] {
            r = r.or(x)?;
        }
        Ok(r)
    }
    pub fn select<T: CondSelectGadget<F>>(&self, a: &T, b: &T) -> Result<T> {
        T::conditionally_select(self, a, b)
    }
    pub fn kary_nand(v: &[Self]) -> Result<Self> {
        Ok(Self::kary_and(v)?.not())
    }
    pub fn enforce_kary_nand(v: &[Self]) -> Result<()> {
        Self::kary_and(v)?.enforce_equal(&Boolean::Constant(false))
    }
    pub fn enforce_kary_or(v: &[Self]) -> Result<()> {
        Self::kary_or(v)?.enforce_equal(&Boolean::Constant(true))
    }
}
impl<F: Field> From<AllocatedBit<F>> for Boolean<F> {
    fn from(a: AllocatedBit<F>) -> Self {
        Boolean::Is(a)
    }
}
impl<F: Field> R1CSVar<F> for Boolean<F> {
    type Value = bool;
    fn cs(&self) -> Cs<F> {
        match self {
            Boolean::Is(a) | Boolean::Not(a) => a.cs.clone(),
            _ => ConstraintSystemRef::None,
        }
    }
    fn value(&self) -> Result<bool> {
        known(&self.cs(), self.hid())
    }
}
impl<F: Field> AllocVar<bool, F> for Boolean<F> {
    fn new_variable<T: Borrow<bool>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<T>, mode: AllocationMode) -> Result<Self> {
        let cs = cs.into().cs();
        if mode == AllocationMode::Constant {
            return Ok(Boolean::Constant(*f()?.borrow()));
        }
        let b = if cs.is_in_setup_mode() { symapi::bool("witness bit") } else { *f()?.borrow() };
        let v = from_bool::<F>(b);
        let variable = if mode == AllocationMode::Input { cs.push_input(v)? } else { cs.push_witness(v)? };
        // b (1 - b) = 0
        cs.require(true, 1);
        Ok(Boolean::Is(AllocatedBit { b, variable, cs }))
    }
}
impl<F: Field> EqGadget<F> for Boolean<F> {
    fn is_eq(&self, o: &Self) -> Result<Boolean<F>> {
        Ok(self.xor(o)?.not())
    }
    fn conditional_enforce_equal(&self, o: &Self, c: &Boolean<F>) -> Result<()> {
        let same = symapi::not(self.hid() ^ o.hid());
        if let (Boolean::Constant(a), Boolean::Constant(b)) = (self, o) {
            return if a == b { Ok(()) } else { Err(SynthesisError::AssignmentMissing) };
        }
        if let Boolean::Constant(false) = c {
            return Ok(());
        }
        enforce(&self.cs().or(o.cs()), symapi::or(symapi::not(c.hid()), same))
    }
    fn conditional_enforce_not_equal(&self, o: &Self, c: &Boolean<F>) -> Result<()> {
        self.conditional_enforce_equal(&o.not(), c)
    }
}
impl<F: Field> CondSelectGadget<F> for Boolean<F> {
    fn conditionally_select(c: &Boolean<F>, a: &Self, b: &Self) -> Result<Self> {
        if let Boolean::Constant(k) = c {
            return Ok(if *k { a.clone() } else { b.clone() });
        }
        let (x, y, z) = (c.hid(), a.hid(), b.hid());
        Self::derived(&c.cs(), symapi::or(symapi::and(x, y), symapi::and(!x, z)))
    }
}
impl<F: Field> ToBitsGadget<F> for Boolean<F> {
    fn to_bits_le(&self) -> Result<Vec<Boolean<F>>> {
        Ok(vec![self.clone()])
    }
}
impl<F: Field> ToBitsGadget<F> for [Boolean<F>] {
    fn to_bits_le(&self) -> Result<Vec<Boolean<F>>> {
        Ok(self.to_vec())
    }
}

// ---------------------------------------------------------------- small integers
#[derive(Clone, Debug)]
pub struct UInt8<F: Field> {
    bits: Vec<Boolean<F>>,
}
impl<F: Field> UInt8<F> {
    pub fn constant(v: u8) -> Self {
        UInt8 { bits: (0..8).map(|i| Boolean::Constant((v >> i) & 1 == 1)).collect() }
    }
    pub fn constant_vec(v: &[u8]) -> Vec<Self> {
        v.iter().map(|x| Self::constant(*x)).collect()
    }
    pub fn new_witness_vec(cs: impl Into<Namespace<F>>, v: &[impl Into<Option<u8>> + Copy]) -> Result<Vec<Self>> {
        let cs = cs.into().cs();
        v.iter().map(|x| Self::new_witness(cs.clone(), || (*x).into().get())).collect()
    }
    pub fn from_bits_le(bits: &[Boolean<F>]) -> Self {
        assert_eq!(bits.len(), 8);
        UInt8 { bits: bits.to_vec() }
    }
    /// the (hidden) value (model only)
    pub fn hid(&self) -> u8 {
        let mut r = 0;
        for (i, b) in self.bits.iter().enumerate() {
            r |= (b.hid() as u8) << i;
        }
        r
    }
    pub fn xor(&self, o: &Self) -> Result<Self> {
        Ok(UInt8 { bits: self.bits.iter().zip(&o.bits).map(|(a, b)| a.xor(b)).collect::<Result<Vec<_>>>()? })
    }
}
impl<F: Field> R1CSVar<F> for UInt8<F> {
    type Value = u8;
    fn cs(&self) -> Cs<F> {
        self.bits.cs()
    }
    fn value(&self) -> Result<u8> {
        known(&self.cs(), self.hid())
    }
}
impl<F: Field> AllocVar<u8, F> for UInt8<F> {
    fn new_variable<T: Borrow<u8>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<T>, mode: AllocationMode) -> Result<Self> {
        let cs = cs.into().cs();
        let setup = cs.is_in_setup_mode() && mode != AllocationMode::Constant;
        let v = if setup { 0 } else { *f()?.borrow() };
        let bits = (0..8).map(|i| Boolean::new_variable(cs.clone(), || Ok((v >> i) & 1 == 1), mode)).collect::<Result<Vec<_>>>()?;
        Ok(UInt8 { bits })
    }
}
impl<F: Field> EqGadget<F> for UInt8<F> {
    fn is_eq(&self, o: &Self) -> Result<Boolean<F>> {
        self.bits.is_eq(&o.bits)
    }
    fn conditional_enforce_equal(&self, o: &Self, c: &Boolean<F>) -> Result<()> {
        self.bits.conditional_enforce_equal(&o.bits, c)
    }
    fn conditional_enforce_not_equal(&self, o: &Self, c: &Boolean<F>) -> Result<()> {
        self.bits.conditional_enforce_not_equal(&o.bits, c)
    }
}
impl<F: Field> CondSelectGadget<F> for UInt8<F> {
    fn conditionally_select(c: &Boolean<F>, a: &Self, b: &Self) -> Result<Self> {
        Ok(UInt8 { bits: a.bits.iter().zip(&b.bits).map(|(x, y)| Boolean::conditionally_select(c, x, y)).collect::<Result<Vec<_>>>()? })
    }
}
impl<F: Field> ToBitsGadget<F> for UInt8<F> {
    fn to_bits_le(&self) -> Result<Vec<Boolean<F>>> {
        Ok(self.bits.clone())
    }
}
impl<F: Field> ToBitsGadget<F> for [UInt8<F>] {
    fn to_bits_le(&self) -> Result<Vec<Boolean<F>>> {
        Ok(self.iter().flat_map(|b| b.bits.clone()).collect())
    }
}
#[derive(Clone, Debug)]
pub struct UInt32<F: Field> {
    pub bits: Vec<Boolean<F>>,
}
impl<F: Field> UInt32<F> {
    pub fn to_bits_le(&self) -> Vec<Boolean<F>> {
        self.bits.clone()
    }
    pub fn from_bits_le(bits: &[Boolean<F>]) -> Self {
        assert_eq!(bits.len(), 32);
        UInt32 { bits: bits.to_vec() }
    }
}
impl<F: Field> R1CSVar<F> for UInt32<F> {
    type Value = u32;
    fn cs(&self) -> Cs<F> {
        self.bits.cs()
    }
    fn value(&self) -> Result<u32> {
        let mut r = 0;
        for (i, b) in self.bits.iter().enumerate() {
            r |= (b.value()? as u32) << i;
        }
        Ok(r)
    }
}

// ---------------------------------------------------------------- field elements
/// variables for the elements of T (a field, or the target group of a pairing)
pub trait FieldVar<T, CF: Field>: Sized + Clone + R1CSVar<CF, Value = T> + EqGadget<CF> + CondSelectGadget<CF> {
    fn zero() -> Self;
    fn one() -> Self;
    fn constant(v: T) -> Self;
    fn is_zero(&self) -> Result<Boolean<CF>> {
        self.is_eq(&Self::zero())
    }
    fn is_one(&self) -> Result<Boolean<CF>> {
        self.is_eq(&Self::one())
    }
    fn double(&self) -> Result<Self>;
    fn negate(&self) -> Result<Self>;
    fn square(&self) -> Result<Self>;
    fn inverse(&self) -> Result<Self>;
    fn mul_by_inverse(&self, d: &Self) -> Result<Self>;
    fn double_in_place(&mut self) -> Result<&mut Self> {
        *self = self.double()?;
        Ok(self)
    }
    fn negate_in_place(&mut self) -> Result<&mut Self> {
        *self = self.negate()?;
        Ok(self)
    }
    fn square_in_place(&mut self) -> Result<&mut Self> {
        *self = self.square()?;
        Ok(self)
    }
}
/// products of variables, for gadgets that enforce them directly
macro_rules! products {
    ($v:ty, [$($g:tt)*]) => {
        impl<$($g)*> $v {
            pub fn mul_equals(&self, o: &Self, r: &Self) -> Result<()> {
                self.vmul(o).enforce_equal(r)
            }
            pub fn square_equals(&self, r: &Self) -> Result<()> {
                self.vmul(self).enforce_equal(r)
            }
        }
    };
}
products!(FpVar<F>, [F: PrimeField]);
products!(Fq2Var, []);
#[derive(Clone, Debug)]
pub struct AllocatedFp<F: PrimeField> {
    v: F,
    pub variable: Variable,
    pub cs: Cs<F>,
}
#[derive(Clone, Debug)]
pub enum FpVar<F: PrimeField> {
    Constant(F),
    Var(AllocatedFp<F>),
}
fn bits_of<F: PrimeField>(v: &F) -> Vec<bool> {
    let n = F::size_in_bits();
    let b = fe::to_bytes(v.raw(), (n + 7) / 8);
    (0..n).map(|i| (b[i / 8] >> (i % 8)) & 1 == 1).collect()
}
fn bits_lt(a: &[bool], b: &[bool], or_equal: bool) -> bool {
    let w = |v: &[bool]| -> Vec<u64> {
        let mut r = vec![0u64; 7];
        for (i, x) in v.iter().enumerate() {
            r[i / 64] |= (*x as u64) << (i % 64);
        }
        r
    };
    let (a, b) = (w(a), w(b));
    if or_equal {
        !limbs_lt(&b, &a)
    } else {
        limbs_lt(&a, &b)
    }
}
impl<F: PrimeField> FpVar<F> {
    /// the (hidden) value (model only)
    pub fn hid(&self) -> F {
        match self {
            FpVar::Constant(v) => *v,
            FpVar::Var(a) => a.v,
        }
    }
    fn linear(cs: &Cs<F>, v: F) -> Self {
        if cs.is_none() {
            return FpVar::Constant(v);
        }
        FpVar::Var(AllocatedFp { v, variable: cs.push_lc(v).unwrap(), cs: cs.clone() })
    }
    fn derived(cs: &Cs<F>, v: F) -> Self {
        if cs.is_none() {
            return FpVar::Constant(v);
        }
        FpVar::Var(AllocatedFp { v, variable: cs.push_witness(v).unwrap(), cs: cs.clone() })
    }
    fn both(&self, o: &Self) -> Cs<F> {
        self.cs().or(o.cs())
    }
    fn vadd(&self, o: &Self) -> Self {
        Self::linear(&self.both(o), self.hid() + o.hid())
    }
    fn vsub(&self, o: &Self) -> Self {
        Self::linear(&self.both(o), self.hid() - o.hid())
    }
    fn vmul(&self, o: &Self) -> Self {
        if let (FpVar::Constant(_), _) | (_, FpVar::Constant(_)) = (self, o) {
            return Self::linear(&self.both(o), self.hid() * o.hid());
        }
        Self::derived(&self.both(o), self.hid() * o.hid())
    }
    fn half_bits() -> Vec<bool> {
        let b = F::modulus_minus_one_div_two();
        (0..F::size_in_bits()).map(|i| b.get_bit(i)).collect()
    }
    pub fn enforce_smaller_or_equal_than_mod_minus_one_div_two(&self) -> Result<()> {
        enforce(&self.cs(), bits_lt(&bits_of(&self.hid()), &Self::half_bits(), true))
    }
    /// both are at most (p-1)/2 (the right one after adding one if equality counts) and a < b or a <= b
    fn compared(&self, o: &Self, ord: std::cmp::Ordering, eq: bool) -> Result<(bool, bool)> {
        let (l, r) = match ord {
            std::cmp::Ordering::Less => (self, o),
            std::cmp::Ordering::Greater => (o, self),
            std::cmp::Ordering::Equal => return Err(SynthesisError::Unsatisfiable),
        };
        let (lb, rb) = (bits_of(&l.hid()), bits_of(&r.hid()));
        let h = Self::half_bits();
        let small = symapi::and(bits_lt(&lb, &h, true), bits_lt(&rb, &h, !eq));
        Ok((small, bits_lt(&lb, &rb, eq)))
    }
    pub fn enforce_cmp(&self, o: &Self, ord: std::cmp::Ordering, eq: bool) -> Result<()> {
        let (small, lt) = self.compared(o, ord, eq)?;
        enforce(&self.both(o), symapi::and(small, lt))
    }
    pub fn is_cmp(&self, o: &Self, ord: std::cmp::Ordering, eq: bool) -> Result<Boolean<F>> {
        let (small, lt) = self.compared(o, ord, eq)?;
        enforce(&self.both(o), small)?;
        Boolean::derived(&self.both(o), lt)
    }
    /// the bit is that of the doubled difference, whatever the sizes
    pub fn is_cmp_unchecked(&self, o: &Self, ord: std::cmp::Ordering, eq: bool) -> Result<Boolean<F>> {
        let one = FpVar::Constant(F::one());
        let (l, r) = match ord {
            std::cmp::Ordering::Less => (self, o),
            std::cmp::Ordering::Greater => (o, self),
            std::cmp::Ordering::Equal => return Err(SynthesisError::Unsatisfiable),
        };
        let r = if eq { r.vadd(&one) } else { r.clone() };
        let d = l.vsub(&r);
        let b = bits_of(&(d.hid() + d.hid()));
        Boolean::derived(&self.both(o), b[0])
    }
    pub fn enforce_cmp_unchecked(&self, o: &Self, ord: std::cmp::Ordering, eq: bool) -> Result<()> {
        self.is_cmp_unchecked(o, ord, eq)?.enforce_equal(&Boolean::Constant(true))
    }
}
impl<F: PrimeField> Boolean<F> {
    /// the number with these bits, least significant first
    pub fn le_bits_to_fp_var(bits: &[Self]) -> Result<FpVar<F>> {
        let (mut r, mut k) = (FpVar::Constant(F::zero()), F::one());
        for b in bits {
            r = r.vadd(&FpVar::from(b.clone()).vmul(&FpVar::Constant(k)));
            k = k + k;
        }
        Ok(r)
    }
}
impl<F: PrimeField> From<Boolean<F>> for FpVar<F> {
    fn from(b: Boolean<F>) -> Self {
        FpVar::linear(&b.cs(), F::from(b.hid()))
    }
}
macro_rules! fpops {
    ($v:ty, $c:ty, $([$($g:tt)*])?) => {
        fpops!(@ $v, $c, [$($($g)*)?], Add, add, vadd, AddAssign, add_assign);
        fpops!(@ $v, $c, [$($($g)*)?], Sub, sub, vsub, SubAssign, sub_assign);
        fpops!(@ $v, $c, [$($($g)*)?], Mul, mul, vmul, MulAssign, mul_assign);
    };
    (@ $v:ty, $c:ty, [$($g:tt)*], $t:ident, $m:ident, $i:ident, $ta:ident, $ma:ident) => {
        impl<$($g)*> $t<$v> for $v { type Output = $v; fn $m(self, o: $v) -> $v { self.$i(&o) } }
        impl<'a, $($g)*> $t<&'a $v> for $v { type Output = $v; fn $m(self, o: &'a $v) -> $v { self.$i(o) } }
        impl<'a, $($g)*> $t<$v> for &'a $v { type Output = $v; fn $m(self, o: $v) -> $v { self.$i(&o) } }
        impl<'a, 'b, $($g)*> $t<&'a $v> for &'b $v { type Output = $v; fn $m(self, o: &'a $v) -> $v { self.$i(o) } }
        impl<$($g)*> $t<$c> for $v { type Output = $v; fn $m(self, o: $c) -> $v { self.$i(&<$v>::constant(o)) } }
        impl<'a, $($g)*> $t<$c> for &'a $v { type Output = $v; fn $m(self, o: $c) -> $v { self.$i(&<$v>::constant(o)) } }
        impl<$($g)*> $ta<$v> for $v { fn $ma(&mut self, o: $v) { *self = self.$i(&o) } }
        impl<'a, $($g)*> $ta<&'a $v> for $v { fn $ma(&mut self, o: &'a $v) { *self = self.$i(o) } }
        impl<$($g)*> $ta<$c> for $v { fn $ma(&mut self, o: $c) { *self = self.$i(&<$v>::constant(o)) } }
    };
}
fpops!(FpVar<F>, F, [F: PrimeField]);
impl<F: PrimeField> R1CSVar<F> for FpVar<F> {
    type Value = F;
    fn cs(&self) -> Cs<F> {
        match self {
            FpVar::Constant(_) => ConstraintSystemRef::None,
            FpVar::Var(a) => a.cs.clone(),
        }
    }
    fn value(&self) -> Result<F> {
        known(&self.cs(), self.hid())
    }
}
impl<F: PrimeField> AllocVar<F, F> for FpVar<F> {
    fn new_variable<T: Borrow<F>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<T>, mode: AllocationMode) -> Result<Self> {
        let cs = cs.into().cs();
        if mode == AllocationMode::Constant {
            return Ok(FpVar::Constant(*f()?.borrow()));
        }
        let v = if cs.is_in_setup_mode() { any_field() } else { *f()?.borrow() };
        let variable = if mode == AllocationMode::Input { cs.push_input(v)? } else { cs.push_witness(v)? };
        Ok(FpVar::Var(AllocatedFp { v, variable, cs }))
    }
}
/// equality that does not branch
fn same_value<F: Field>(a: &F, b: &F) -> bool {
    let mut r = true;
    for (x, y) in a.parts().iter().zip(b.parts()) {
        r = symapi::and(r, fe::eq(*x, y));
    }
    r
}
macro_rules! eqsel {
    ($v:ty, $f:ty, [$($g:tt)*]) => {
        impl<$($g)*> EqGadget<$f> for $v {
            fn is_eq(&self, o: &Self) -> Result<Boolean<$f>> {
                Boolean::derived(&self.both(o), same_value(&self.hid(), &o.hid()))
            }
            fn conditional_enforce_equal(&self, o: &Self, c: &Boolean<$f>) -> Result<()> {
                enforce(&self.both(o).or(c.cs()), symapi::or(symapi::not(c.hid()), same_value(&self.hid(), &o.hid())))
            }
            fn conditional_enforce_not_equal(&self, o: &Self, c: &Boolean<$f>) -> Result<()> {
                enforce(&self.both(o).or(c.cs()), symapi::or(symapi::not(c.hid()), symapi::not(same_value(&self.hid(), &o.hid()))))
            }
        }
    };
}
eqsel!(FpVar<F>, F, [F: PrimeField]);
impl<F: PrimeField> CondSelectGadget<F> for FpVar<F> {
    fn conditionally_select(c: &Boolean<F>, a: &Self, b: &Self) -> Result<Self> {
        if let Boolean::Constant(k) = c {
            return Ok(if *k { a.clone() } else { b.clone() });
        }
        Ok(FpVar::derived(&c.cs(), F::pick(settled(c.hid()), &a.hid(), &b.hid())))
    }
}
impl<F: PrimeField> ToBitsGadget<F> for FpVar<F> {
    fn to_bits_le(&self) -> Result<Vec<Boolean<F>>> {
        let cs = self.cs();
        bits_of(&self.hid()).into_iter().map(|b| Boolean::derived(&cs, b)).collect()
    }
}
impl<F: PrimeField> ToBytesGadget<F> for FpVar<F> {
    fn to_bytes(&self) -> Result<Vec<UInt8<F>>> {
        let mut b = self.to_bits_le()?;
        while b.len() % 8 != 0 {
            b.push(Boolean::Constant(false));
        }
        Ok(b.chunks(8).map(UInt8::from_bits_le).collect())
    }
}
impl<F: PrimeField> FieldVar<F, F> for FpVar<F> {
    fn zero() -> Self {
        FpVar::Constant(F::zero())
    }
    fn one() -> Self {
        FpVar::Constant(F::one())
    }
    fn constant(v: F) -> Self {
        FpVar::Constant(v)
    }
    fn double(&self) -> Result<Self> {
        Ok(self.vadd(self))
    }
    fn negate(&self) -> Result<Self> {
        Ok(FpVar::linear(&self.cs(), -self.hid()))
    }
    fn square(&self) -> Result<Self> {
        Ok(self.vmul(self))
    }
    fn inverse(&self) -> Result<Self> {
        FpVar::Constant(F::one()).mul_by_inverse(self)
    }
    fn mul_by_inverse(&self, d: &Self) -> Result<Self> {
        d.enforce_not_equal(&FpVar::Constant(F::zero()))?;
        let i = F::from_raw(fe::inv(d.hid().raw()));
        Ok(FpVar::derived(&self.both(d), self.hid() * i))
    }
}
/// the extension field
#[derive(Clone, Debug)]
pub struct Fq2Var {
    pub c0: FpVar<Fq>,
    pub c1: FpVar<Fq>,
    /// it is this element times the other one (a homogeneous coordinate)
    hom: Option<(Fq2, Fq2)>,
    /// it is the inverse of this element
    inv: Option<Fq2>,
}
fn same(a: &Fq2, b: &Fq2) -> bool {
    a.c0.0 == b.c0.0 && a.c1.0 == b.c1.0
}
impl Fq2Var {
    pub fn new(c0: FpVar<Fq>, c1: FpVar<Fq>) -> Self {
        Fq2Var { c0, c1, hom: None, inv: None }
    }
    pub fn hid(&self) -> Fq2 {
        Fq2::new(self.c0.hid(), self.c1.hid())
    }
    fn both(&self, o: &Self) -> Cs<Fq> {
        self.cs().or(o.cs())
    }
    fn derived(cs: &Cs<Fq>, v: Fq2) -> Self {
        Fq2Var::new(FpVar::derived(cs, v.c0), FpVar::derived(cs, v.c1))
    }
    fn vadd(&self, o: &Self) -> Self {
        Fq2Var::new(self.c0.vadd(&o.c0), self.c1.vadd(&o.c1))
    }
    fn vsub(&self, o: &Self) -> Self {
        Fq2Var::new(self.c0.vsub(&o.c0), self.c1.vsub(&o.c1))
    }
    fn vmul(&self, o: &Self) -> Self {
        // a homogeneous coordinate times the inverse of the last one
        for (a, b) in [(self, o), (o, self)] {
            if let (Some((k, z)), Some(i)) = (&a.hom, &b.inv) {
                if !symapi::is_native() && same(z, i) {
                    return Fq2Var::derived(&self.both(o), *k);
                }
            }
        }
        Fq2Var::derived(&self.both(o), self.hid() * o.hid())
    }
}
fpops!(Fq2Var, Fq2,);
eqsel!(Fq2Var, Fq, []);
impl R1CSVar<Fq> for Fq2Var {
    type Value = Fq2;
    fn cs(&self) -> Cs<Fq> {
        self.c0.cs().or(self.c1.cs())
    }
    fn value(&self) -> Result<Fq2> {
        known(&self.cs(), self.hid())
    }
}
impl AllocVar<Fq2, Fq> for Fq2Var {
    fn new_variable<T: Borrow<Fq2>>(cs: impl Into<Namespace<Fq>>, f: impl FnOnce() -> Result<T>, mode: AllocationMode) -> Result<Self> {
        let cs = cs.into().cs();
        let v = if cs.is_in_setup_mode() && mode != AllocationMode::Constant { Fq2::zero() } else { *f()?.borrow() };
        Ok(Fq2Var::new(FpVar::new_variable(cs.clone(), || Ok(v.c0), mode)?, FpVar::new_variable(cs, || Ok(v.c1), mode)?))
    }
}
impl CondSelectGadget<Fq> for Fq2Var {
    fn conditionally_select(c: &Boolean<Fq>, a: &Self, b: &Self) -> Result<Self> {
        Ok(Fq2Var::new(FpVar::conditionally_select(c, &a.c0, &b.c0)?, FpVar::conditionally_select(c, &a.c1, &b.c1)?))
    }
}
impl ToBitsGadget<Fq> for Fq2Var {
    fn to_bits_le(&self) -> Result<Vec<Boolean<Fq>>> {
        let mut v = self.c0.to_bits_le()?;
        v.extend(self.c1.to_bits_le()?);
        Ok(v)
    }
}
impl FieldVar<Fq2, Fq> for Fq2Var {
    fn zero() -> Self {
        Self::constant(Fq2::zero())
    }
    fn one() -> Self {
        Self::constant(Fq2::one())
    }
    fn constant(v: Fq2) -> Self {
        Fq2Var::new(FpVar::Constant(v.c0), FpVar::Constant(v.c1))
    }
    fn double(&self) -> Result<Self> {
        Ok(self.vadd(self))
    }
    fn negate(&self) -> Result<Self> {
        Ok(Fq2Var::new(self.c0.negate()?, self.c1.negate()?))
    }
    fn square(&self) -> Result<Self> {
        Ok(self.vmul(self))
    }
    fn inverse(&self) -> Result<Self> {
        let mut r = Self::one().mul_by_inverse(self)?;
        r.inv = Some(self.hid());
        Ok(r)
    }
    fn mul_by_inverse(&self, d: &Self) -> Result<Self> {
        d.enforce_not_equal(&Self::zero())?;
        let dv = d.hid();
        let v = match &self.hom {
            Some((k, z)) if !symapi::is_native() && same(z, &dv) => *k,
            _ => {
                // 1 / (a + b u) = (a - b u) / norm
                let n = Fq(fe::inv((dv.c0 * dv.c0 + dv.c1 * dv.c1 * Fq::from(5u64)).0));
                self.hid() * Fq2::new(dv.c0 * n, -(dv.c1 * n))
            }
        };
        Ok(Fq2Var::derived(&self.both(d), v))
    }
}

// ---------------------------------------------------------------- points
/// coordinates of points (model only)
pub trait Coord<B: Field>: FieldVar<B, Fq> {
    fn alloc(cs: &Cs<Fq>, v: B, mode: AllocationMode) -> Result<Self>;
    fn hidden(&self) -> B;
    fn scaled(cs: &Cs<Fq>, k: B, z: B) -> Self;
}
impl Coord<Fq> for FpVar<Fq> {
    fn alloc(cs: &Cs<Fq>, v: Fq, mode: AllocationMode) -> Result<Self> {
        Ok(match mode {
            AllocationMode::Constant => FpVar::Constant(v),
            AllocationMode::Witness => FpVar::derived(cs, v),
            AllocationMode::Input => FpVar::Var(AllocatedFp { v, variable: cs.push_input(v)?, cs: cs.clone() }),
        })
    }
    fn hidden(&self) -> Fq {
        self.hid()
    }
    fn scaled(cs: &Cs<Fq>, k: Fq, z: Fq) -> Self {
        FpVar::derived(cs, k * z)
    }
}
impl Coord<Fq2> for Fq2Var {
    fn alloc(cs: &Cs<Fq>, v: Fq2, mode: AllocationMode) -> Result<Self> {
        Ok(Fq2Var::new(Coord::alloc(cs, v.c0, mode)?, Coord::alloc(cs, v.c1, mode)?))
    }
    fn hidden(&self) -> Fq2 {
        self.hid()
    }
    fn scaled(cs: &Cs<Fq>, k: Fq2, z: Fq2) -> Self {
        let mut r = Fq2Var::derived(cs, k * z);
        r.hom = Some((k, z));
        r
    }
}
pub struct ProjectiveVar<P: SWModelParameters, V> {
    pub x: V,
    pub y: V,
    pub z: V,
    d: Fe,
    cs: Cs<Fq>,
    _p: PhantomData<P>,
}
impl<P: SWModelParameters, V: Clone> Clone for ProjectiveVar<P, V> {
    fn clone(&self) -> Self {
        ProjectiveVar { x: self.x.clone(), y: self.y.clone(), z: self.z.clone(), d: self.d, cs: self.cs.clone(), _p: PhantomData }
    }
}
impl<P: SWModelParameters, V> std::fmt::Debug for ProjectiveVar<P, V> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("point variable")
    }
}
/// variables for the elements of a group
pub trait CurveVar<C, F: Field>: Sized + Clone + std::fmt::Debug + R1CSVar<F, Value = C> + ToBitsGadget<F> + EqGadget<F> + CondSelectGadget<F> + AllocVar<C, F> + Add<Self, Output = Self> + Sub<Self, Output = Self> + for<'a> Add<&'a Self, Output = Self> + for<'a> Sub<&'a Self, Output = Self> + AddAssign<Self> + SubAssign<Self> {
    fn zero() -> Self;
    fn is_zero(&self) -> Result<Boolean<F>>;
    fn constant(c: C) -> Self;
    fn new_variable_omit_prime_order_check(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<C>, mode: AllocationMode) -> Result<Self>;
    fn enforce_prime_order(&self) -> Result<()>;
    fn double_in_place(&mut self) -> Result<()>;
    fn double(&self) -> Result<Self> {
        let mut r = self.clone();
        r.double_in_place()?;
        Ok(r)
    }
    fn negate(&self) -> Result<Self>;
    fn scalar_mul_le<'a>(&self, bits: impl Iterator<Item = &'a Boolean<F>>) -> Result<Self>;
}
type Pt<P> = GroupProjective<P>;
impl<P: SWModelParameters<ScalarField = Scalar>, V: Coord<P::BaseField>> ProjectiveVar<P, V> {
    /// trusts the coordinates
    pub fn new(x: V, y: V, z: V) -> Self {
        let cs = x.cs().or(y.cs()).or(z.cs());
        let p = GroupAffine::<P>::new(x.hidden(), y.hidden(), false);
        ProjectiveVar { x, y, z, d: p.d, cs, _p: PhantomData }
    }
    /// discrete logarithm of the (hidden) value (model only)
    pub fn hid(&self) -> Fe {
        self.d
    }
    fn of_affine(cs: &Cs<Fq>, a: &GroupAffine<P>, mode: AllocationMode) -> Result<Self> {
        let (o, z) = (P::BaseField::one(), P::BaseField::zero());
        let i = a.infinity;
        let x = V::alloc(cs, P::BaseField::pick(i, &z, &a.x), mode)?;
        let y = V::alloc(cs, P::BaseField::pick(i, &o, &a.y), mode)?;
        let w = V::alloc(cs, P::BaseField::pick(i, &z, &o), mode)?;
        let cs = if mode == AllocationMode::Constant { ConstraintSystemRef::None } else { cs.clone() };
        Ok(ProjectiveVar { x, y, z: w, d: a.d, cs, _p: PhantomData })
    }
    /// result of a computation: some homogeneous representative
    fn computed(cs: &Cs<Fq>, d: Fe) -> Self {
        let a = GroupAffine::<P>::of_dlog(d);
        if cs.is_none() {
            return Self::of_affine(cs, &a, AllocationMode::Constant).unwrap();
        }
        let n: Vec<Fe> = (0..P::BaseField::extension_degree())
            .map(|i| Uf::new().fe(d).u64(i).to_fe(&format_name(P::NAME), 1))
            .collect();
        let z = P::BaseField::from_parts(&n);
        let i = a.infinity;
        let z = P::BaseField::pick(i, &P::BaseField::zero(), &z);
        symapi::assume(symapi::or(i, symapi::not(z.is_zero())));
        ProjectiveVar { x: V::scaled(cs, a.x, z), y: V::scaled(cs, a.y, z), z: V::alloc(cs, z, AllocationMode::Witness).unwrap(), d, cs: cs.clone(), _p: PhantomData }
    }
    fn both(&self, o: &Self) -> Cs<Fq> {
        self.cs.clone().or(o.cs.clone())
    }
    fn vadd(&self, o: &Self) -> Self {
        Self::computed(&self.both(o), fe::add(self.d, o.d))
    }
    fn vsub(&self, o: &Self) -> Self {
        Self::computed(&self.both(o), fe::sub(self.d, o.d))
    }
}
fn format_name(s: &str) -> String {
    let mut r = String::from("var_z_");
    r.push_str(s);
    r
}
impl<P: SWModelParameters<ScalarField = Scalar>, V: Coord<P::BaseField>> R1CSVar<Fq> for ProjectiveVar<P, V> {
    type Value = Pt<P>;
    fn cs(&self) -> Cs<Fq> {
        self.cs.clone()
    }
    fn value(&self) -> Result<Pt<P>> {
        known(&self.cs, GroupProjective::of_dlog(self.d))
    }
}
impl<P: SWModelParameters<ScalarField = Scalar>, V: Coord<P::BaseField>> EqGadget<Fq> for ProjectiveVar<P, V> {
    fn is_eq(&self, o: &Self) -> Result<Boolean<Fq>> {
        Boolean::derived(&self.both(o), fe::eq(self.d, o.d))
    }
    fn conditional_enforce_equal(&self, o: &Self, c: &Boolean<Fq>) -> Result<()> {
        enforce(&self.both(o).or(c.cs()), symapi::or(symapi::not(c.hid()), fe::eq(self.d, o.d)))
    }
    fn conditional_enforce_not_equal(&self, o: &Self, c: &Boolean<Fq>) -> Result<()> {
        enforce(&self.both(o).or(c.cs()), symapi::or(symapi::not(c.hid()), symapi::not(fe::eq(self.d, o.d))))
    }
}
impl<P: SWModelParameters<ScalarField = Scalar>, V: Coord<P::BaseField>> CondSelectGadget<Fq> for ProjectiveVar<P, V> {
    fn conditionally_select(c: &Boolean<Fq>, a: &Self, b: &Self) -> Result<Self> {
        if let Boolean::Constant(k) = c {
            return Ok(if *k { a.clone() } else { b.clone() });
        }
        Ok(ProjectiveVar {
            x: V::conditionally_select(c, &a.x, &b.x)?,
            y: V::conditionally_select(c, &a.y, &b.y)?,
            z: V::conditionally_select(c, &a.z, &b.z)?,
            d: fe::ite(settled(c.hid()), a.d, b.d),
            cs: c.cs(),
            _p: PhantomData,
        })
    }
}
impl<P: SWModelParameters<ScalarField = Scalar>, V: Coord<P::BaseField>> ToBitsGadget<Fq> for ProjectiveVar<P, V> {
    fn to_bits_le(&self) -> Result<Vec<Boolean<Fq>>> {
        unimplemented!("not modelled: bits of a point variable")
    }
}
impl<P: SWModelParameters<ScalarField = Scalar>, V: Coord<P::BaseField>> AllocVar<Pt<P>, Fq> for ProjectiveVar<P, V> {
    fn new_variable<T: Borrow<Pt<P>>>(cs: impl Into<Namespace<Fq>>, f: impl FnOnce() -> Result<T>, mode: AllocationMode) -> Result<Self> {
        let r = <Self as CurveVar<Pt<P>, Fq>>::new_variable_omit_prime_order_check(cs, || Ok(*f()?.borrow()), mode)?;
        <Self as CurveVar<Pt<P>, Fq>>::enforce_prime_order(&r)?;
        Ok(r)
    }
}
impl<P: SWModelParameters<ScalarField = Scalar>, V: Coord<P::BaseField>> CurveVar<Pt<P>, Fq> for ProjectiveVar<P, V> {
    fn zero() -> Self {
        Self::of_affine(&ConstraintSystemRef::None, &GroupAffine::zero(), AllocationMode::Constant).unwrap()
    }
    fn is_zero(&self) -> Result<Boolean<Fq>> {
        Boolean::derived(&self.cs, fe::eq(self.d, fe::small(0, 0)))
    }
    fn constant(c: Pt<P>) -> Self {
        Self::of_affine(&ConstraintSystemRef::None, &c.into_affine(), AllocationMode::Constant).unwrap()
    }
    fn new_variable_omit_prime_order_check(cs: impl Into<Namespace<Fq>>, f: impl FnOnce() -> Result<Pt<P>>, mode: AllocationMode) -> Result<Self> {
        let cs = cs.into().cs();
        if mode == AllocationMode::Constant || !cs.is_in_setup_mode() {
            let p = f()?;
            let r = Self::of_affine(&cs, &p.into_affine(), mode)?;
            cs.require(true, 3);
            return Ok(r);
        }
        // any point of the curve
        let r = if P::BaseField::extension_degree() == 1 {
            let x: P::BaseField = any_field();
            let (on, y) = GroupAffine::<P>::y_of_x(x, symapi::bool("witness sign"));
            let r = Self::of_affine(&cs, &GroupAffine::new(x, y, false), mode)?;
            cs.require(on, 3);
            r
        } else {
            let d = fe::var(0, "witness point");
            symapi::assume(symapi::not(fe::eq(d, fe::small(0, 0))));
            let r = Self::of_affine(&cs, &GroupAffine::of_dlog(d), mode)?;
            cs.require(true, 3);
            r
        };
        Ok(r)
    }
    fn enforce_prime_order(&self) -> Result<()> {
        Ok(())
    }
    fn double_in_place(&mut self) -> Result<()> {
        *self = self.vadd(self);
        Ok(())
    }
    fn negate(&self) -> Result<Self> {
        Ok(ProjectiveVar { x: self.x.clone(), y: self.y.negate()?, z: self.z.clone(), d: fe::neg(self.d), cs: self.cs.clone(), _p: PhantomData })
    }
    fn scalar_mul_le<'a>(&self, bits: impl Iterator<Item = &'a Boolean<Fq>>) -> Result<Self> {
        let mut s = fe::small(0, 0);
        let mut w = fe::small(0, 1);
        let mut cs = self.cs.clone();
        for b in bits {
            s = fe::add(s, fe::mul(w, fe::from_bool(0, b.hid())));
            w = fe::add(w, w);
            cs = cs.or(b.cs());
        }
        Ok(Self::computed(&cs, fe::mul(self.d, s)))
    }
}
macro_rules! ptops {
    ($($t:ident $m:ident $i:ident $ta:ident $ma:ident);*) => {$(
        impl<P: SWModelParameters<ScalarField = Scalar>, V: Coord<P::BaseField>> $t for ProjectiveVar<P, V> { type Output = Self; fn $m(self, o: Self) -> Self { self.$i(&o) } }
        impl<'a, P: SWModelParameters<ScalarField = Scalar>, V: Coord<P::BaseField>> $t<&'a Self> for ProjectiveVar<P, V> { type Output = Self; fn $m(self, o: &'a Self) -> Self { self.$i(o) } }
        impl<'a, 'b, P: SWModelParameters<ScalarField = Scalar>, V: Coord<P::BaseField>> $t<&'a ProjectiveVar<P, V>> for &'b ProjectiveVar<P, V> { type Output = ProjectiveVar<P, V>; fn $m(self, o: &'a ProjectiveVar<P, V>) -> ProjectiveVar<P, V> { self.$i(o) } }
        impl<P: SWModelParameters<ScalarField = Scalar>, V: Coord<P::BaseField>> $ta for ProjectiveVar<P, V> { fn $ma(&mut self, o: Self) { *self = self.$i(&o) } }
        impl<'a, P: SWModelParameters<ScalarField = Scalar>, V: Coord<P::BaseField>> $ta<&'a Self> for ProjectiveVar<P, V> { fn $ma(&mut self, o: &'a Self) { *self = self.$i(o) } }
    )*};
}
ptops!(Add add vadd AddAssign add_assign; Sub sub vsub SubAssign sub_assign);

pub type G1Var<P> = ProjectiveVar<<P as bls12::Bls12Parameters>::G1Parameters, FpVar<<P as bls12::Bls12Parameters>::Fp>>;
pub type G2Var<P> = ProjectiveVar<<P as bls12::Bls12Parameters>::G2Parameters, Fq2Var>;

/// a point of the Edwards curve: coordinates only
#[derive(Debug)]
pub struct AffineVar<P, V> {
    pub x: V,
    pub y: V,
    pub _p: PhantomData<P>,
}
impl<P, V: Clone> Clone for AffineVar<P, V> {
    fn clone(&self) -> Self {
        AffineVar { x: self.x.clone(), y: self.y.clone(), _p: PhantomData }
    }
}
impl<P> AffineVar<P, FpVar<Fq>> {
    pub fn of(cs: &Cs<Fq>, x: Fq, y: Fq) -> Self {
        AffineVar { x: FpVar::derived(cs, x), y: FpVar::derived(cs, y), _p: PhantomData }
    }
}

// ---------------------------------------------------------------- pairings
pub trait PairingVar<E: PairingEngine, F: Field = <E as PairingEngine>::Fq> {
    type G1Var: CurveVar<E::G1Projective, F>;
    type G2Var: CurveVar<E::G2Projective, F>;
    type GTVar: FieldVar<E::Fqk, F>;
    type G1PreparedVar: Clone;
    type G2PreparedVar: Clone;
    fn prepare_g1(q: &Self::G1Var) -> Result<Self::G1PreparedVar>;
    fn prepare_g2(q: &Self::G2Var) -> Result<Self::G2PreparedVar>;
    fn product_of_pairings(p: &[Self::G1PreparedVar], q: &[Self::G2PreparedVar]) -> Result<Self::GTVar>;
    fn pairing(p: Self::G1PreparedVar, q: Self::G2PreparedVar) -> Result<Self::GTVar> {
        Self::product_of_pairings(&[p], &[q])
    }
}
#[derive(Clone, Debug)]
pub struct PreparedVar<P> {
    pub d: Fe,
    cs: Cs<Fq>,
    _p: PhantomData<P>,
}
pub type G1PreparedVar<P> = PreparedVar<(P, u8)>;
pub type G2PreparedVar<P> = PreparedVar<(P, u16)>;
/// the target group: the logarithm
#[derive(Clone, Debug)]
pub struct GtVar {
    v: Fr,
    cs: Cs<Fq>,
}
impl GtVar {
    pub fn hid(&self) -> Fr {
        self.v
    }
    fn both(&self, o: &Self) -> Cs<Fq> {
        self.cs.clone().or(o.cs.clone())
    }
}
eqsel!(GtVar, Fq, []);
impl R1CSVar<Fq> for GtVar {
    type Value = Fq12;
    fn cs(&self) -> Cs<Fq> {
        self.cs.clone()
    }
    fn value(&self) -> Result<Fq12> {
        known(&self.cs, Fq12(self.v))
    }
}
impl CondSelectGadget<Fq> for GtVar {
    fn conditionally_select(c: &Boolean<Fq>, a: &Self, b: &Self) -> Result<Self> {
        Ok(GtVar { v: Fr::pick(c.hid(), &a.v, &b.v), cs: c.cs().or(a.both(b)) })
    }
}
impl FieldVar<Fq12, Fq> for GtVar {
    fn zero() -> Self {
        unimplemented!("not modelled: zero of the extension field of the target group")
    }
    fn one() -> Self {
        GtVar { v: Fr::zero(), cs: ConstraintSystemRef::None }
    }
    fn constant(v: Fq12) -> Self {
        GtVar { v: v.0, cs: ConstraintSystemRef::None }
    }
    fn double(&self) -> Result<Self> {
        unimplemented!("not modelled: sums in the extension field of the target group")
    }
    fn negate(&self) -> Result<Self> {
        unimplemented!("not modelled: sums in the extension field of the target group")
    }
    fn square(&self) -> Result<Self> {
        Ok(GtVar { v: self.v + self.v, cs: self.cs.clone() })
    }
    fn inverse(&self) -> Result<Self> {
        Ok(GtVar { v: -self.v, cs: self.cs.clone() })
    }
    fn mul_by_inverse(&self, d: &Self) -> Result<Self> {
        Ok(GtVar { v: self.v - d.v, cs: self.both(d) })
    }
}
#[derive(Clone, Debug)]
pub struct Bls12PairingVar;
impl PairingVar<crate::curves::bls12_377::Bls12_377, Fq> for Bls12PairingVar {
    type G1Var = G1Var<crate::curves::bls12_377::Parameters>;
    type G2Var = G2Var<crate::curves::bls12_377::Parameters>;
    type GTVar = GtVar;
    type G1PreparedVar = G1PreparedVar<crate::curves::bls12_377::Parameters>;
    type G2PreparedVar = G2PreparedVar<crate::curves::bls12_377::Parameters>;
    fn prepare_g1(q: &Self::G1Var) -> Result<Self::G1PreparedVar> {
        Ok(PreparedVar { d: q.d, cs: q.cs.clone(), _p: PhantomData })
    }
    fn prepare_g2(q: &Self::G2Var) -> Result<Self::G2PreparedVar> {
        Ok(PreparedVar { d: q.d, cs: q.cs.clone(), _p: PhantomData })
    }
    fn product_of_pairings(p: &[Self::G1PreparedVar], q: &[Self::G2PreparedVar]) -> Result<GtVar> {
        let mut s = Fr::zero();
        let mut cs = ConstraintSystemRef::None;
        for (a, b) in p.iter().zip(q) {
            s += Fr(fe::mul(a.d, b.d));
            cs = cs.or(a.cs.clone()).or(b.cs.clone());
        }
        if !cs.is_none() {
            cs.require(true, p.len());
        }
        Ok(GtVar { v: s, cs })
    }
}
