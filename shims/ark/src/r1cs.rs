//! Model of ark-relations: rank-1 constraint systems whose variables carry (symbolic) values.
//!
//! Two kinds of system. Proving: values come from the prover's closures, `is_satisfied` is the
//! conjunction of all constraints. Setup: closures are not called and values cannot be asked for, as in
//! arkworks, but every allocated variable has an arbitrary hidden value, so that `holds()` - the
//! conjunction of the constraints - ranges over all witness assignments of the circuit.
use crate::ff::*;
use std::cell::RefCell;
use std::fmt::{self, Debug};
use std::ops::*;
use std::rc::Rc;
use symapi::{fe, Fe};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Variable {
    Zero,
    One,
    Instance(usize),
    Witness(usize),
    SymbolicLc(usize),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SynthesisError {
    MissingCS,
    AssignmentMissing,
    DivisionByZero,
    Unsatisfiable,
    PolynomialDegreeTooLarge,
    UnexpectedIdentity,
    MalformedVerifyingKey,
    UnconstrainedVariable,
}
impl fmt::Display for SynthesisError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("synthesis error")
    }
}
impl std::error::Error for SynthesisError {}
pub type Result<T> = std::result::Result<T, SynthesisError>;

pub trait ConstraintSynthesizer<F: Field> {
    fn generate_constraints(self, cs: ConstraintSystemRef<F>) -> Result<()>;
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct LinearCombination<F: Field>(pub Vec<(F, Variable)>);
#[macro_export]
macro_rules! lc {
    () => {
        $crate::r1cs::LinearCombination::zero()
    };
}
impl<F: Field> LinearCombination<F> {
    pub fn zero() -> Self {
        LinearCombination(vec![])
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn compactify(&mut self) {}
}
impl<F: Field> Default for LinearCombination<F> {
    fn default() -> Self {
        Self::zero()
    }
}
impl<F: Field> From<Variable> for LinearCombination<F> {
    fn from(v: Variable) -> Self {
        LinearCombination(vec![(F::one(), v)])
    }
}
impl<F: Field> From<(F, Variable)> for LinearCombination<F> {
    fn from(v: (F, Variable)) -> Self {
        LinearCombination(vec![v])
    }
}
impl<F: Field> Add<(F, Variable)> for LinearCombination<F> {
    type Output = Self;
    fn add(mut self, o: (F, Variable)) -> Self {
        self.0.push(o);
        self
    }
}
impl<F: Field> AddAssign<(F, Variable)> for LinearCombination<F> {
    fn add_assign(&mut self, o: (F, Variable)) {
        self.0.push(o)
    }
}
impl<F: Field> Sub<(F, Variable)> for LinearCombination<F> {
    type Output = Self;
    fn sub(mut self, o: (F, Variable)) -> Self {
        self.0.push((-o.0, o.1));
        self
    }
}
impl<F: Field> SubAssign<(F, Variable)> for LinearCombination<F> {
    fn sub_assign(&mut self, o: (F, Variable)) {
        self.0.push((-o.0, o.1))
    }
}
impl<F: Field> Add<Variable> for LinearCombination<F> {
    type Output = Self;
    fn add(self, o: Variable) -> Self {
        self + (F::one(), o)
    }
}
impl<F: Field> Sub<Variable> for LinearCombination<F> {
    type Output = Self;
    fn sub(self, o: Variable) -> Self {
        self - (F::one(), o)
    }
}
impl<F: Field> Neg for LinearCombination<F> {
    type Output = Self;
    fn neg(mut self) -> Self {
        for x in &mut self.0 {
            x.0 = -x.0;
        }
        self
    }
}
impl<F: Field> Mul<F> for LinearCombination<F> {
    type Output = Self;
    fn mul(mut self, k: F) -> Self {
        for x in &mut self.0 {
            x.0 *= k;
        }
        self
    }
}
impl<'a, F: Field> Mul<F> for &'a LinearCombination<F> {
    type Output = LinearCombination<F>;
    fn mul(self, k: F) -> LinearCombination<F> {
        self.clone() * k
    }
}
impl<F: Field> MulAssign<F> for LinearCombination<F> {
    fn mul_assign(&mut self, k: F) {
        for x in &mut self.0 {
            x.0 *= k;
        }
    }
}
macro_rules! lcops {
    ($($a:ty, $b:ty);*) => {$(
        impl<'a, 'b, F: Field> Add<$a> for $b {
            type Output = LinearCombination<F>;
            fn add(self, o: $a) -> LinearCombination<F> {
                let mut r = self.0.clone();
                r.extend(o.0.iter().cloned());
                LinearCombination(r)
            }
        }
        impl<'a, 'b, F: Field> Sub<$a> for $b {
            type Output = LinearCombination<F>;
            fn sub(self, o: $a) -> LinearCombination<F> {
                let mut r = self.0.clone();
                r.extend(o.0.iter().map(|x| (-x.0, x.1)));
                LinearCombination(r)
            }
        }
    )*};
}
lcops!(LinearCombination<F>, LinearCombination<F>; &'a LinearCombination<F>, LinearCombination<F>; LinearCombination<F>, &'a LinearCombination<F>; &'a LinearCombination<F>, &'b LinearCombination<F>);
impl<F: Field> Add<(F, LinearCombination<F>)> for LinearCombination<F> {
    type Output = Self;
    fn add(self, o: (F, LinearCombination<F>)) -> Self {
        self + o.1 * o.0
    }
}
impl<'a, F: Field> Add<(F, &'a LinearCombination<F>)> for LinearCombination<F> {
    type Output = Self;
    fn add(self, o: (F, &'a LinearCombination<F>)) -> Self {
        self + o.1 * o.0
    }
}
impl<F: Field> Sub<(F, LinearCombination<F>)> for LinearCombination<F> {
    type Output = Self;
    fn sub(self, o: (F, LinearCombination<F>)) -> Self {
        self - o.1 * o.0
    }
}
impl<F: Field> AddAssign<LinearCombination<F>> for LinearCombination<F> {
    fn add_assign(&mut self, o: LinearCombination<F>) {
        self.0.extend(o.0)
    }
}
impl<'a, F: Field> AddAssign<&'a LinearCombination<F>> for LinearCombination<F> {
    fn add_assign(&mut self, o: &'a LinearCombination<F>) {
        self.0.extend(o.0.iter().cloned())
    }
}
impl<F: Field> SubAssign<LinearCombination<F>> for LinearCombination<F> {
    fn sub_assign(&mut self, o: LinearCombination<F>) {
        self.0.extend((-o).0)
    }
}
impl<F: Field> AddAssign<Variable> for LinearCombination<F> {
    fn add_assign(&mut self, o: Variable) {
        self.0.push((F::one(), o))
    }
}
impl<F: Field> SubAssign<Variable> for LinearCombination<F> {
    fn sub_assign(&mut self, o: Variable) {
        self.0.push((-F::one(), o))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SynthesisMode {
    Setup,
    Prove { construct_matrices: bool },
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OptimizationGoal {
    None,
    Constraints,
    Weight,
}
pub struct ConstraintSystem<F: Field> {
    pub instance_assignment: Vec<F>,
    pub witness_assignment: Vec<F>,
    pub lcs: Vec<F>,
    pub num_constraints: usize,
    mode: SynthesisMode,
    sat: bool,
    /// conditions not yet part of sat
    pub pending: Vec<bool>,
    /// of the sequence of allocations and constraints
    shape: u64,
    /// what the variables of the allocated points are, in order of allocation (model only)
    pub points: Vec<Fe>,
}
impl<F: Field> Debug for ConstraintSystem<F> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("ConstraintSystem")
    }
}
impl<F: Field> ConstraintSystem<F> {
    pub fn new() -> Self {
        ConstraintSystem {
            instance_assignment: vec![F::one()],
            witness_assignment: vec![],
            lcs: vec![],
            num_constraints: 0,
            mode: SynthesisMode::Prove { construct_matrices: true },
            sat: true,
            pending: Vec::new(),
            shape: 0,
            points: vec![],
        }
    }
    pub fn new_ref() -> ConstraintSystemRef<F> {
        ConstraintSystemRef::CS(Rc::new(RefCell::new(Self::new())))
    }
    /// a system in setup mode: all assignments at once
    pub fn any_ref() -> ConstraintSystemRef<F> {
        let cs = Self::new_ref();
        cs.set_mode(SynthesisMode::Setup);
        cs
    }
    fn and(&mut self, ok: bool) {
        if unsafe { crate::ec::SETTLE } {
            let ok = symapi::under(ok);
            if !symapi::is_concrete(ok) || !ok {
                self.pending.push(ok);
            }
            if self.pending.len() == 1024 {
                self.flush();
            }
        } else {
            self.sat = symapi::and(self.sat, ok);
        }
    }
    fn flush(&mut self) -> bool {
        let v = std::mem::take(&mut self.pending);
        self.sat = symapi::and(self.sat, symapi::settle_all(&v));
        self.sat
    }
    fn value(&self, v: Variable) -> F {
        match v {
            Variable::Zero => F::zero(),
            Variable::One => F::one(),
            Variable::Instance(i) => self.instance_assignment[i],
            Variable::Witness(i) => self.witness_assignment[i],
            Variable::SymbolicLc(i) => self.lcs[i],
        }
    }
    fn eval(&self, lc: &LinearCombination<F>) -> F {
        let mut r = F::zero();
        for (k, v) in &lc.0 {
            r += *k * self.value(*v);
        }
        r
    }
    fn mix(&mut self, x: u64) {
        self.shape = (self.shape.rotate_left(5) ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    }
}
pub enum ConstraintSystemRef<F: Field> {
    None,
    CS(Rc<RefCell<ConstraintSystem<F>>>),
}
impl<F: Field> Clone for ConstraintSystemRef<F> {
    fn clone(&self) -> Self {
        match self {
            Self::None => Self::None,
            Self::CS(a) => Self::CS(a.clone()),
        }
    }
}
impl<F: Field> Debug for ConstraintSystemRef<F> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("ConstraintSystemRef")
    }
}
impl<F: Field> PartialEq for ConstraintSystemRef<F> {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::None, Self::None) => true,
            (Self::CS(a), Self::CS(b)) => Rc::ptr_eq(a, b),
            _ => false,
        }
    }
}
impl<F: Field> Eq for ConstraintSystemRef<F> {}
fn vcode(v: Variable) -> u64 {
    match v {
        Variable::Zero => 1,
        Variable::One => 2,
        Variable::Instance(i) => 8 * i as u64 + 3,
        Variable::Witness(i) => 8 * i as u64 + 4,
        Variable::SymbolicLc(i) => 8 * i as u64 + 5,
    }
}
impl<F: Field> ConstraintSystemRef<F> {
    fn rc(&self) -> Result<&Rc<RefCell<ConstraintSystem<F>>>> {
        match self {
            Self::None => Err(SynthesisError::MissingCS),
            Self::CS(a) => Ok(a),
        }
    }
    pub fn is_none(&self) -> bool {
        matches!(self, Self::None)
    }
    pub fn or(self, o: Self) -> Self {
        match self {
            Self::None => o,
            s => s,
        }
    }
    pub fn borrow(&self) -> Option<std::cell::Ref<'_, ConstraintSystem<F>>> {
        self.rc().ok().map(|r| r.borrow())
    }
    pub fn borrow_mut(&self) -> Option<std::cell::RefMut<'_, ConstraintSystem<F>>> {
        self.rc().ok().map(|r| r.borrow_mut())
    }
    pub fn is_in_setup_mode(&self) -> bool {
        self.rc().map_or(false, |r| r.borrow().mode == SynthesisMode::Setup)
    }
    pub fn set_mode(&self, m: SynthesisMode) {
        if let Ok(r) = self.rc() {
            r.borrow_mut().mode = m
        }
    }
    pub fn set_optimization_goal(&self, _g: OptimizationGoal) {}
    pub fn should_construct_matrices(&self) -> bool {
        true
    }
    pub fn num_constraints(&self) -> usize {
        self.rc().map_or(0, |r| r.borrow().num_constraints)
    }
    pub fn num_instance_variables(&self) -> usize {
        self.rc().map_or(0, |r| r.borrow().instance_assignment.len())
    }
    pub fn num_witness_variables(&self) -> usize {
        self.rc().map_or(0, |r| r.borrow().witness_assignment.len())
    }
    pub fn shape(&self) -> u64 {
        self.rc().map_or(0, |r| r.borrow().shape)
    }
    pub fn inline_all_lcs(&self) {}
    pub fn finalize(&self) {}
    pub fn outline_lcs(&self) {}
    pub fn is_satisfied(&self) -> Result<bool> {
        let mut r = self.rc()?.borrow_mut();
        if r.mode == SynthesisMode::Setup {
            Err(SynthesisError::AssignmentMissing)
        } else {
            Ok(r.flush())
        }
    }
    pub fn which_is_unsatisfied(&self) -> Result<Option<String>> {
        Ok(None)
    }
    /// all constraints hold for the (hidden) values (model only)
    pub fn holds(&self) -> bool {
        self.rc().map_or(true, |r| r.borrow_mut().flush())
    }
    pub fn assigned_value(&self, v: Variable) -> Option<F> {
        let r = self.rc().ok()?.borrow();
        if r.mode == SynthesisMode::Setup && !matches!(v, Variable::Zero | Variable::One) {
            return None;
        }
        Some(r.value(v))
    }
    pub fn new_lc(&self, lc: LinearCombination<F>) -> Result<Variable> {
        let mut r = self.rc()?.borrow_mut();
        let v = r.eval(&lc);
        Ok(r.push_lc(v))
    }
    pub fn enforce_constraint(&self, a: LinearCombination<F>, b: LinearCombination<F>, c: LinearCombination<F>) -> Result<()> {
        let mut r = self.rc()?.borrow_mut();
        let (x, y, z) = (r.eval(&a), r.eval(&b), r.eval(&c));
        r.and(x * y == z);
        r.num_constraints += 1;
        for l in &[a, b, c] {
            r.mix(6);
            for (_, v) in &l.0 {
                r.mix(vcode(*v));
            }
        }
        Ok(())
    }
    pub fn new_input_variable<T: FnOnce() -> Result<F>>(&self, f: T) -> Result<Variable> {
        let v = if self.is_in_setup_mode() { any_field() } else { f()? };
        self.push_input(v)
    }
    pub fn new_witness_variable<T: FnOnce() -> Result<F>>(&self, f: T) -> Result<Variable> {
        let v = if self.is_in_setup_mode() { any_field() } else { f()? };
        self.push_witness(v)
    }
    // ---- model only
    pub fn push_input(&self, v: F) -> Result<Variable> {
        let mut r = self.rc()?.borrow_mut();
        r.mix(7);
        r.instance_assignment.push(v);
        Ok(Variable::Instance(r.instance_assignment.len() - 1))
    }
    pub fn push_witness(&self, v: F) -> Result<Variable> {
        let mut r = self.rc()?.borrow_mut();
        r.mix(9);
        r.witness_assignment.push(v);
        Ok(Variable::Witness(r.witness_assignment.len() - 1))
    }
    pub fn push_lc(&self, v: F) -> Result<Variable> {
        Ok(self.rc()?.borrow_mut().push_lc(v))
    }
    /// n constraints that hold exactly when `ok`
    pub fn require(&self, ok: bool, n: usize) {
        if let Ok(rc) = self.rc() {
            let mut r = rc.borrow_mut();
            r.and(ok);
            r.num_constraints += n;
            r.mix(16 * n as u64 + 11);
        } else {
            // constants only: arkworks checks them while generating the constraints
            assert!(ok, "constants that violate a constraint");
        }
    }
    pub fn hidden(&self, v: Variable) -> F {
        match self.rc() {
            Ok(r) => r.borrow().value(v),
            Err(_) => F::zero(),
        }
    }
}
impl<F: Field> ConstraintSystem<F> {
    fn push_lc(&mut self, v: F) -> Variable {
        self.mix(13);
        self.lcs.push(v);
        Variable::SymbolicLc(self.lcs.len() - 1)
    }
    pub fn instance(&self) -> Vec<F> {
        self.instance_assignment.clone()
    }
}
/// an arbitrary element
pub fn any_field<F: Field>() -> F {
    let fid = <F::BasePrimeField as PrimeField>::FID;
    let v: Vec<Fe> = (0..F::extension_degree()).map(|_| fe::var(fid, "witness")).collect();
    F::from_parts(&v)
}

#[derive(Clone, Debug)]
pub struct Namespace<F: Field> {
    inner: ConstraintSystemRef<F>,
}
impl<F: Field> From<ConstraintSystemRef<F>> for Namespace<F> {
    fn from(inner: ConstraintSystemRef<F>) -> Self {
        Namespace { inner }
    }
}
impl<F: Field> Namespace<F> {
    pub fn new(inner: ConstraintSystemRef<F>, _id: Option<()>) -> Self {
        Namespace { inner }
    }
    pub fn cs(&self) -> ConstraintSystemRef<F> {
        self.inner.clone()
    }
}
#[macro_export]
macro_rules! ns {
    ($cs:expr, $name:expr) => {
        $crate::r1cs::Namespace::new($cs.clone(), None)
    };
}
