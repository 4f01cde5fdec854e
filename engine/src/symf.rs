//! A symbolic "field": every element is a handle to a node of an expression
//! DAG. Running the real, compiled constraint code over it yields the exact
//! constraint polynomials of the current tree.
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt;
use std::iter::{Product, Sum};
use std::ops::*;

use num::BigUint;
use plonky2::field::extension::FieldExtension;
use plonky2::field::goldilocks_field::GoldilocksField;
use plonky2::field::types::{Field, Field64, PrimeField64, Sample};
use serde::{Deserialize, Serialize};

pub const P: u64 = GoldilocksField::ORDER;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Node {
    Const(u64),
    Var(u32),
    Add(u32, u32),
    Sub(u32, u32),
    Mul(u32, u32),
    Neg(u32),
}

pub const ALPHA: u32 = u32::MAX;

#[derive(Default)]
pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<Node, u32>,
    pub captured: Vec<u32>,
}

thread_local! {
    static ARENA: RefCell<Arena> = RefCell::new(Arena::default());
}

pub fn reset() {
    ARENA.with(|a| *a.borrow_mut() = Arena::default());
    for c in [0, 1, 2, P - 1] {
        mk(Node::Const(c));
    }
}

pub fn take() -> Arena {
    ARENA.with(|a| std::mem::take(&mut *a.borrow_mut()))
}

fn mk(n: Node) -> SymF {
    ARENA.with(|a| {
        let a = &mut *a.borrow_mut();
        if let Some(&i) = a.map.get(&n) {
            return SymF(i);
        }
        let i = a.nodes.len() as u32;
        a.nodes.push(n);
        a.map.insert(n, i);
        SymF(i)
    })
}

fn get(s: SymF) -> Node {
    ARENA.with(|a| a.borrow().nodes[s.0 as usize])
}

fn cst(s: SymF) -> Option<u64> {
    match get(s) {
        Node::Const(c) => Some(c),
        _ => None,
    }
}

pub fn var(i: u32) -> SymF {
    mk(Node::Var(i))
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct SymF(pub u32);

impl Default for SymF {
    fn default() -> Self {
        SymF(0)
    }
}
impl fmt::Debug for SymF {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "n{}", self.0)
    }
}
impl fmt::Display for SymF {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "n{}", self.0)
    }
}

fn g(c: u64) -> GoldilocksField {
    GoldilocksField::from_canonical_u64(c)
}

impl Add for SymF {
    type Output = Self;
    fn add(self, r: Self) -> Self {
        match (cst(self), cst(r)) {
            (Some(a), Some(b)) => mk(Node::Const((g(a) + g(b)).to_canonical_u64())),
            (Some(0), _) => r,
            (_, Some(0)) => self,
            _ => mk(Node::Add(self.0, r.0)),
        }
    }
}
impl AddAssign for SymF {
    fn add_assign(&mut self, r: Self) {
        // `ConstraintConsumer::constraint` is the only place that multiplies by
        // ALPHA: the added value is a constraint.
        if let Node::Mul(_, b) = get(*self) {
            if get(SymF(b)) == Node::Var(ALPHA) {
                ARENA.with(|a| a.borrow_mut().captured.push(r.0));
                return;
            }
        }
        *self = *self + r;
    }
}
impl Sub for SymF {
    type Output = Self;
    fn sub(self, r: Self) -> Self {
        match (cst(self), cst(r)) {
            (Some(a), Some(b)) => mk(Node::Const((g(a) - g(b)).to_canonical_u64())),
            (_, Some(0)) => self,
            (Some(0), _) => -r,
            _ => mk(Node::Sub(self.0, r.0)),
        }
    }
}
impl SubAssign for SymF {
    fn sub_assign(&mut self, r: Self) {
        *self = *self - r;
    }
}
impl Mul for SymF {
    type Output = Self;
    fn mul(self, r: Self) -> Self {
        if get(r) == Node::Var(ALPHA) {
            return mk(Node::Mul(self.0, r.0));
        }
        match (cst(self), cst(r)) {
            (Some(a), Some(b)) => mk(Node::Const((g(a) * g(b)).to_canonical_u64())),
            (Some(0), _) | (_, Some(0)) => SymF(0),
            (Some(1), _) => r,
            (_, Some(1)) => self,
            _ => mk(Node::Mul(self.0, r.0)),
        }
    }
}
impl MulAssign for SymF {
    fn mul_assign(&mut self, r: Self) {
        *self = *self * r;
    }
}
impl Neg for SymF {
    type Output = Self;
    fn neg(self) -> Self {
        match cst(self) {
            Some(a) => mk(Node::Const((-g(a)).to_canonical_u64())),
            None => mk(Node::Neg(self.0)),
        }
    }
}
impl Div for SymF {
    type Output = Self;
    fn div(self, r: Self) -> Self {
        self * r.inverse()
    }
}
impl DivAssign for SymF {
    fn div_assign(&mut self, r: Self) {
        *self = *self / r;
    }
}
impl Sum for SymF {
    fn sum<I: Iterator<Item = Self>>(it: I) -> Self {
        it.fold(SymF(0), |a, b| a + b)
    }
}
impl Product for SymF {
    fn product<I: Iterator<Item = Self>>(it: I) -> Self {
        it.fold(SymF(1), |a, b| a * b)
    }
}
impl Sample for SymF {
    fn sample<R: rand::RngCore + ?Sized>(_: &mut R) -> Self {
        unimplemented!()
    }
}

impl Field for SymF {
    const ZERO: Self = SymF(0);
    const ONE: Self = SymF(1);
    const TWO: Self = SymF(2);
    const NEG_ONE: Self = SymF(3);
    const TWO_ADICITY: usize = GoldilocksField::TWO_ADICITY;
    const CHARACTERISTIC_TWO_ADICITY: usize = GoldilocksField::CHARACTERISTIC_TWO_ADICITY;
    const MULTIPLICATIVE_GROUP_GENERATOR: Self = SymF(0);
    const POWER_OF_TWO_GENERATOR: Self = SymF(0);
    const BITS: usize = 64;

    fn order() -> BigUint {
        GoldilocksField::order()
    }
    fn characteristic() -> BigUint {
        GoldilocksField::characteristic()
    }
    fn try_inverse(&self) -> Option<Self> {
        let c = cst(*self).expect("inverse of a symbolic value");
        g(c).try_inverse()
            .map(|i| mk(Node::Const(i.to_canonical_u64())))
    }
    fn from_noncanonical_biguint(n: BigUint) -> Self {
        Self::from_noncanonical_u64(
            GoldilocksField::from_noncanonical_biguint(n).to_canonical_u64(),
        )
    }
    fn from_canonical_u64(n: u64) -> Self {
        mk(Node::Const(g(n).to_canonical_u64()))
    }
    fn from_noncanonical_u128(n: u128) -> Self {
        Self::from_canonical_u64(GoldilocksField::from_noncanonical_u128(n).to_canonical_u64())
    }
    fn from_noncanonical_u64(n: u64) -> Self {
        Self::from_canonical_u64(GoldilocksField::from_noncanonical_u64(n).to_canonical_u64())
    }
    fn from_noncanonical_i64(n: i64) -> Self {
        Self::from_canonical_u64(GoldilocksField::from_noncanonical_i64(n).to_canonical_u64())
    }
}

impl FieldExtension<2> for SymF {
    type BaseField = GoldilocksField;
    fn to_basefield_array(&self) -> [GoldilocksField; 2] {
        unimplemented!()
    }
    fn from_basefield_array(a: [GoldilocksField; 2]) -> Self {
        assert!(a[1].is_zero());
        Self::from_canonical_u64(a[0].to_canonical_u64())
    }
    fn from_basefield(x: GoldilocksField) -> Self {
        Self::from_canonical_u64(x.to_canonical_u64())
    }
}
