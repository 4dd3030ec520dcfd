//! Stand-in for secret_integers 0.1.3 used to GENERATE verification conditions:
//! the real saber crate is compiled against it and executed once; every U16 is
//! a bit-vector term, so the run yields, for all inputs at once, the term each
//! output coefficient is computed as.  The meaning given to each operation here
//! (bvadd, bvmul, ...) is the contract of the real secret_integers crate, which
//! the same check proves separately with Kani (harness/saber/ops.rs).
//! Anything that would make control flow or another type depend on a symbolic
//! value panics with "VF-UNDECIDED".
use std::cell::RefCell;
use std::num::Wrapping;
use std::ops::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op { Add, Sub, Mul, And, Or, Xor, Shl, Shr }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node { Const(u16), Var(u32), Bin(Op, u32, u32) }
thread_local! { static ARENA: RefCell<Vec<Node>> = RefCell::new((0..65536u32).map(|c| Node::Const(c as u16)).collect()); }
pub fn vf_len() -> usize { ARENA.with(|a| a.borrow().len()) }
pub fn vf_node(i: u32) -> Node { ARENA.with(|a| a.borrow()[i as usize]) }
pub fn vf_reset() { ARENA.with(|a| a.borrow_mut().truncate(65536)) }
fn push(n: Node) -> U16 { ARENA.with(|a| { let mut a = a.borrow_mut(); a.push(n); U16((a.len() - 1) as u32) }) }
pub fn vf_var(k: u32) -> U16 { push(Node::Var(k)) }

/// index into the arena; indices below 65536 are the constants
#[derive(Clone, Copy, Default)]
pub struct U16(pub u32);
impl U16 {
    fn c(self) -> Option<u16> { if self.0 < 65536 { Some(self.0 as u16) } else { None } }
    fn k(v: u16) -> U16 { U16(v as u32) }
    fn must(self) -> u16 { self.c().expect("VF-UNDECIDED: a symbolic U16 is converted or inspected") }
    fn bin(op: Op, x: U16, y: U16) -> U16 {
        if let (Some(a), Some(b)) = (x.c(), y.c()) {
            return U16::k(match op {
                Op::Add => a.wrapping_add(b), Op::Sub => a.wrapping_sub(b), Op::Mul => a.wrapping_mul(b),
                Op::And => a & b, Op::Or => a | b, Op::Xor => a ^ b,
                Op::Shl => a << b, Op::Shr => a >> b,
            });
        }
        push(Node::Bin(op, x.0, y.0))
    }
    pub fn classify<T: Into<u16>>(x: T) -> Self { U16::k(x.into()) }
    pub fn declassify(self) -> u16 { self.must() }
    pub fn zero() -> Self { U16::k(0) }
    pub fn one() -> Self { U16::k(1) }
    pub fn ones() -> Self { U16::k(0xffff) }
    pub fn rotate_left(self, r: u32) -> Self { let r = r % 16; if r == 0 { self } else { (self << r) | (self >> (16 - r)) } }
    pub fn rotate_right(self, r: u32) -> Self { let r = r % 16; if r == 0 { self } else { (self >> r) | (self << (16 - r)) } }
}
impl From<u16> for U16 { fn from(x: u16) -> Self { U16::k(x) } }
macro_rules! b { ($tr:ident, $f:ident, $ta:ident, $fa:ident, $op:expr) => {
    impl $tr for U16 { type Output = U16; fn $f(self, r: U16) -> U16 { U16::bin($op, self, r) } }
    impl $ta for U16 { fn $fa(&mut self, r: U16) { *self = U16::bin($op, *self, r) } }
} }
b!(Add, add, AddAssign, add_assign, Op::Add);
b!(Sub, sub, SubAssign, sub_assign, Op::Sub);
b!(Mul, mul, MulAssign, mul_assign, Op::Mul);
b!(BitAnd, bitand, BitAndAssign, bitand_assign, Op::And);
b!(BitOr, bitor, BitOrAssign, bitor_assign, Op::Or);
b!(BitXor, bitxor, BitXorAssign, bitxor_assign, Op::Xor);
impl Shl<u32> for U16 { type Output = U16; fn shl(self, r: u32) -> U16 { assert!(r < 16, "shift amount below 16"); U16::bin(Op::Shl, self, U16::k(r as u16)) } }
impl Shr<u32> for U16 { type Output = U16; fn shr(self, r: u32) -> U16 { assert!(r < 16, "shift amount below 16"); U16::bin(Op::Shr, self, U16::k(r as u16)) } }
impl ShlAssign<u32> for U16 { fn shl_assign(&mut self, r: u32) { *self = *self << r } }
impl ShrAssign<u32> for U16 { fn shr_assign(&mut self, r: u32) { *self = *self >> r } }
impl Not for U16 { type Output = U16; fn not(self) -> U16 { U16::bin(Op::Xor, self, U16::k(0xffff)) } }
impl Neg for U16 { type Output = U16; fn neg(self) -> U16 { U16::bin(Op::Sub, U16::k(0), self) } }

macro_rules! conc { ($n:ident, $r:ty) => {
    #[derive(Clone, Copy, Default)]
    pub struct $n(pub(crate) $r);
    impl $n {
        pub fn classify<T: Into<$r>>(x: T) -> Self { $n(x.into()) }
        pub fn declassify(self) -> $r { self.0 }
        pub fn zero() -> Self { $n(0) }
        pub fn one() -> Self { $n(1) }
        pub fn ones() -> Self { $n(!0) }
        pub fn rotate_left(self, r: u32) -> Self { $n(self.0.rotate_left(r)) }
        pub fn rotate_right(self, r: u32) -> Self { $n(self.0.rotate_right(r)) }
    }
    impl From<$r> for $n { fn from(x: $r) -> Self { $n(x) } }
    conc!(@w $n, Add, add, AddAssign, add_assign, +); conc!(@w $n, Sub, sub, SubAssign, sub_assign, -); conc!(@w $n, Mul, mul, MulAssign, mul_assign, *);
    conc!(@b $n, BitAnd, bitand, BitAndAssign, bitand_assign, &); conc!(@b $n, BitOr, bitor, BitOrAssign, bitor_assign, |); conc!(@b $n, BitXor, bitxor, BitXorAssign, bitxor_assign, ^);
    impl Shl<u32> for $n { type Output = Self; fn shl(self, r: u32) -> Self { $n(self.0 << r) } }
    impl Shr<u32> for $n { type Output = Self; fn shr(self, r: u32) -> Self { $n(self.0 >> r) } }
    impl ShlAssign<u32> for $n { fn shl_assign(&mut self, r: u32) { *self = *self << r } }
    impl ShrAssign<u32> for $n { fn shr_assign(&mut self, r: u32) { *self = *self >> r } }
    impl Not for $n { type Output = Self; fn not(self) -> Self { $n(!self.0) } }
    impl Neg for $n { type Output = Self; fn neg(self) -> Self { $n((Wrapping(!self.0) + Wrapping(1)).0) } }
};
(@w $n:ident, $t:ident, $f:ident, $ta:ident, $fa:ident, $o:tt) => {
    impl $t for $n { type Output = Self; fn $f(self, r: Self) -> Self { $n((Wrapping(self.0) $o Wrapping(r.0)).0) } }
    impl $ta for $n { fn $fa(&mut self, r: Self) { *self = *self $o r } }
};
(@b $n:ident, $t:ident, $f:ident, $ta:ident, $fa:ident, $o:tt) => {
    impl $t for $n { type Output = Self; fn $f(self, r: Self) -> Self { $n(self.0 $o r.0) } }
    impl $ta for $n { fn $fa(&mut self, r: Self) { *self = *self $o r } }
} }
conc!(U8, u8); conc!(U32, u32); conc!(U64, u64); conc!(U128, u128);
macro_rules! cast { ($($a:ident $b:ident $r:ty),*) => { $( impl From<$a> for $b { fn from(x: $a) -> $b { $b(x.0 as $r) } } )* } }
cast!(U8 U32 u32, U8 U64 u64, U8 U128 u128, U32 U8 u8, U32 U64 u64, U32 U128 u128, U64 U8 u8, U64 U32 u32, U64 U128 u128, U128 U8 u8, U128 U32 u32, U128 U64 u64);
macro_rules! cast16 { ($($a:ident $r:ty),*) => { $(
    impl From<$a> for U16 { fn from(x: $a) -> U16 { U16::k(x.0 as u16) } }
    impl From<U16> for $a { fn from(x: U16) -> $a { $a(x.must() as $r) } } )* } }
cast16!(U8 u8, U32 u32, U64 u64, U128 u128);
