//! Component types, with a uniform way to make, read and write them.
use shard_ecs::*;
use std::cell::RefCell;
use std::collections::HashMap;

pub trait Comp: Component {
    fn make(v: u64) -> Self;
    fn val(&self) -> u64;
    fn set(&mut self, v: u64) {
        *self = Self::make(v);
    }
    /// The value stored for `v`.
    fn norm(v: u64) -> u64;
    const DROPS: bool = false;
}
macro_rules! plain {
    ($($name:ident : $inner:ty = $id:expr;)*) => { $(
        #[repr(transparent)]
        pub struct $name(pub $inner);
        impl Component for $name {
            const NAME: &'static str = stringify!($name);
            const ID: ComponentTypeId = ComponentTypeId::from_u16($id);
        }
        impl Comp for $name {
            fn make(v: u64) -> Self { $name(v as $inner) }
            fn val(&self) -> u64 { self.0 as u64 }
            fn norm(v: u64) -> u64 { v as $inner as u64 }
        }
    )* };
}
macro_rules! named {
    ($($name:ident : $inner:ty = $s:expr;)*) => { $(
        #[repr(transparent)]
        pub struct $name(pub $inner);
        impl Component for $name {
            const NAME: &'static str = $s;
        }
        impl Comp for $name {
            fn make(v: u64) -> Self { $name(v as $inner) }
            fn val(&self) -> u64 { self.0 as u64 }
            fn norm(v: u64) -> u64 { v as $inner as u64 }
        }
    )* };
}
plain! {
    P1: u8 = 70; P2: u16 = 1; P4: u32 = 50; P8: u64 = 20;
    // {X1,X2} and {X3,X4} have the same archetype hash; so do {Y1,Y2} and {Y3,Y4}.
    X1: u32 = 5962; X2: u64 = 51917; X3: u64 = 23662; X4: u8 = 54055;
    Y1: u16 = 16397; Y2: u32 = 53857; Y3: u32 = 5921; Y4: u64 = 52039;
    // The hash of {M1,M2,M3} is u32::MAX.
    M1: u32 = 3002; M2: u8 = 12105; M3: u64 = 20027;
    // The extreme identifiers.
    E0: u16 = 0; EM: u64 = 65534;
}
named! {
    N1: u32 = "Position"; N2: u32 = "Velocity"; N3: u64 = "Health"; N4: u8 = "a"; N5: u16 = "shard::N5";
    N6: u32 = "Transform"; N7: u8 = ""; N8: u32 = "N8";
}
/// Zero-sized.
pub struct Z;
impl Component for Z {
    const NAME: &'static str = "Z";
    const ID: ComponentTypeId = ComponentTypeId::from_u16(33);
}
impl Comp for Z {
    fn make(_: u64) -> Self { Z }
    fn val(&self) -> u64 { 0 }
    fn norm(_: u64) -> u64 { 0 }
}
/// Zero-sized, over-aligned.
#[repr(align(64))]
pub struct Z64;
impl Component for Z64 {
    const NAME: &'static str = "Z64";
    const ID: ComponentTypeId = ComponentTypeId::from_u16(34);
}
impl Comp for Z64 {
    fn make(_: u64) -> Self { Z64 }
    fn val(&self) -> u64 { if self as *const Self as usize % 64 == 0 { 0 } else { 999 } }
    fn norm(_: u64) -> u64 { 0 }
}
/// Over-aligned; a misaligned instance reads as a different value.
#[repr(C, align(32))]
pub struct W(pub u64);
impl Component for W {
    const NAME: &'static str = "W";
    const ID: ComponentTypeId = ComponentTypeId::from_u16(15);
}
impl Comp for W {
    fn make(v: u64) -> Self { W(v) }
    fn val(&self) -> u64 { if self as *const Self as usize % 32 == 0 { self.0 } else { !self.0 } }
    fn norm(v: u64) -> u64 { v }
}
/// Large, odd-sized: every byte must survive.
pub struct Big(pub [u8; 301]);
impl Component for Big {
    const NAME: &'static str = "Big";
    const ID: ComponentTypeId = ComponentTypeId::from_u16(45);
}
impl Comp for Big {
    fn make(v: u64) -> Self { Big(core::array::from_fn(|i| (v as u8).wrapping_add(i as u8))) }
    fn val(&self) -> u64 {
        let v = self.0[0];
        if (0..301).all(|i| self.0[i] == v.wrapping_add(i as u8)) { v as u64 } else { 100_000 + v as u64 }
    }
    fn norm(v: u64) -> u64 { v as u8 as u64 }
}

thread_local! {
    /// Live instances of components with a destructor, by token, and how often it happened that an
    /// instance was destroyed that was not alive.
    pub static LIVE: RefCell<(HashMap<u64, u64>, u64, Vec<u64>)> = RefCell::new((HashMap::new(), 1, Vec::new()));
}
pub fn live_reset() {
    LIVE.with(|l| *l.borrow_mut() = (HashMap::new(), 1, Vec::new()));
}
/// Instances destroyed twice (or never created).
pub fn bad_drops() -> Vec<u64> {
    LIVE.with(|l| l.borrow().2.clone())
}
pub fn live_count() -> usize {
    LIVE.with(|l| l.borrow().0.len())
}
pub fn is_live(token: u64) -> bool {
    LIVE.with(|l| l.borrow().0.contains_key(&token))
}
macro_rules! dropping {
    ($($name:ident : $pad:ty = $id:expr;)*) => { $(
        pub struct $name { token: u64, v: u64, _pad: $pad }
        impl Component for $name {
            const NAME: &'static str = stringify!($name);
            const ID: ComponentTypeId = ComponentTypeId::from_u16($id);
        }
        impl Comp for $name {
            fn make(v: u64) -> Self {
                let token = LIVE.with(|l| {
                    let mut l = l.borrow_mut();
                    l.1 += 1;
                    let t = l.1;
                    l.0.insert(t, v);
                    t
                });
                $name { token, v, _pad: Default::default() }
            }
            fn val(&self) -> u64 {
                // An instance that was destroyed, or is garbage, reads as a different value.
                let ok = LIVE.with(|l| l.borrow().0.get(&self.token) == Some(&self.v));
                if ok { self.v } else { self.v ^ 0xBAD0_0000_0000 }
            }
            fn norm(v: u64) -> u64 { v }
            const DROPS: bool = true;
        }
        impl Drop for $name {
            fn drop(&mut self) {
                LIVE.with(|l| {
                    let mut l = l.borrow_mut();
                    if l.0.remove(&self.token).is_none() {
                        let t = self.token;
                        l.2.push(t);
                    }
                });
            }
        }
    )* };
}
dropping! { D1: u8 = 12; D2: [u64; 4] = 61; D3: () = 64000; }

/// Groups of components.
pub trait TG: component_group::ComponentGroup {
    fn name() -> &'static str;
    fn ids() -> Vec<u16>;
    fn norm(v: &[u64]) -> Vec<u64>;
    fn build(v: &[u64]) -> Self;
    fn vals(&self) -> Vec<u64>;
    fn refs<'a>(r: &Self::RefTuple<'a>) -> Vec<u64>;
    fn mut_vals<'a>(r: &Self::MutRefTuple<'a>) -> Vec<u64>;
    fn write<'a>(r: &mut Self::MutRefTuple<'a>, v: &[u64]);
    fn slice_lens<'a>(r: &Self::SliceRefTuple<'a>) -> Vec<usize>;
    fn slice_row<'a>(r: &Self::SliceRefTuple<'a>, row: usize) -> Vec<u64>;
    fn mut_slice_lens<'a>(r: &Self::SliceMutRefTuple<'a>) -> Vec<usize>;
    fn mut_slice_row<'a>(r: &Self::SliceMutRefTuple<'a>, row: usize) -> Vec<u64>;
    fn write_row<'a>(r: &mut Self::SliceMutRefTuple<'a>, row: usize, v: &[u64]);
    fn valid() -> bool {
        let mut i = Self::ids();
        i.sort();
        i.windows(2).all(|w| w[0] != w[1])
    }
}
#[macro_export]
macro_rules! groups {
    ($($f:ident)? ; $( ( $($t:ident),* ) )*) => { $( $crate::groups!(@one $($t),*); )* };
    (@one $t:ident) => {
        impl $crate::comp::TG for $t {
            fn name() -> &'static str { stringify!($t) }
            fn ids() -> Vec<u16> { vec![<$t as Component>::ID.into_u16()] }
            fn norm(v: &[u64]) -> Vec<u64> { vec![<$t as Comp>::norm(v[0])] }
            fn build(v: &[u64]) -> Self { <$t as Comp>::make(v[0]) }
            fn vals(&self) -> Vec<u64> { vec![self.val()] }
            fn refs<'a>(r: &Self::RefTuple<'a>) -> Vec<u64> { vec![r.val()] }
            fn mut_vals<'a>(r: &Self::MutRefTuple<'a>) -> Vec<u64> { vec![r.val()] }
            fn write<'a>(r: &mut Self::MutRefTuple<'a>, v: &[u64]) { r.set(v[0]) }
            fn slice_lens<'a>(r: &Self::SliceRefTuple<'a>) -> Vec<usize> { vec![r.len()] }
            fn slice_row<'a>(r: &Self::SliceRefTuple<'a>, row: usize) -> Vec<u64> { vec![r[row].val()] }
            fn mut_slice_lens<'a>(r: &Self::SliceMutRefTuple<'a>) -> Vec<usize> { vec![r.len()] }
            fn mut_slice_row<'a>(r: &Self::SliceMutRefTuple<'a>, row: usize) -> Vec<u64> { vec![r[row].val()] }
            fn write_row<'a>(r: &mut Self::SliceMutRefTuple<'a>, row: usize, v: &[u64]) { r[row].set(v[0]) }
        }
    };
    (@one $($t:ident),*) => {
        impl $crate::comp::TG for ($($t),*) {
            fn name() -> &'static str { stringify!(($($t),*)) }
            fn ids() -> Vec<u16> { vec![$(<$t as Component>::ID.into_u16()),*] }
            fn norm(v: &[u64]) -> Vec<u64> { let mut i = v.iter(); vec![$(<$t as Comp>::norm(*i.next().unwrap())),*] }
            fn build(v: &[u64]) -> Self { let mut i = v.iter(); ($(<$t as Comp>::make(*i.next().unwrap())),*) }
            #[allow(non_snake_case)]
            fn vals(&self) -> Vec<u64> { $crate::groups!(@names self; [] $($t)*); }
            #[allow(non_snake_case)]
            fn refs<'a>(r: &Self::RefTuple<'a>) -> Vec<u64> { $crate::groups!(@names r; [] $($t)*); }
            #[allow(non_snake_case)]
            fn mut_vals<'a>(r: &Self::MutRefTuple<'a>) -> Vec<u64> { $crate::groups!(@names r; [] $($t)*); }
            fn write<'a>(r: &mut Self::MutRefTuple<'a>, v: &[u64]) { let mut v = v.iter(); $crate::groups!(@each r, e, { e.set(*v.next().unwrap()) }; $($t)*); }
            fn slice_lens<'a>(r: &Self::SliceRefTuple<'a>) -> Vec<usize> { let mut o = vec![]; $crate::groups!(@eachref r, e, { o.push(e.len()) }; $($t)*); o }
            fn slice_row<'a>(r: &Self::SliceRefTuple<'a>, row: usize) -> Vec<u64> { let mut o = vec![]; $crate::groups!(@eachref r, e, { o.push(e[row].val()) }; $($t)*); o }
            fn mut_slice_lens<'a>(r: &Self::SliceMutRefTuple<'a>) -> Vec<usize> { let mut o = vec![]; $crate::groups!(@eachref r, e, { o.push(e.len()) }; $($t)*); o }
            fn mut_slice_row<'a>(r: &Self::SliceMutRefTuple<'a>, row: usize) -> Vec<u64> { let mut o = vec![]; $crate::groups!(@eachref r, e, { o.push(e[row].val()) }; $($t)*); o }
            fn write_row<'a>(r: &mut Self::SliceMutRefTuple<'a>, row: usize, v: &[u64]) { let mut v = v.iter(); $crate::groups!(@each r, e, { e[row].set(*v.next().unwrap()) }; $($t)*); }
        }
    };
    (@names $r:ident; [] $($t:ident)*) => { let mut o = vec![]; $crate::groups!(@eachref $r, e, { o.push(e.val()) }; $($t)*); return o; };
    (@each $r:ident, $e:ident, $b:block; $($t:ident)*) => { $crate::groups!(@ix mut $r, $e, $b; [0 1 2 3 4 5 6 7 8 9 10 11 12 13] $($t)*); };
    (@eachref $r:ident, $e:ident, $b:block; $($t:ident)*) => { $crate::groups!(@ix ref $r, $e, $b; [0 1 2 3 4 5 6 7 8 9 10 11 12 13] $($t)*); };
    (@ix $m:ident $r:ident, $e:ident, $b:block; [$($n:tt)*]) => {};
    (@ix mut $r:ident, $e:ident, $b:block; [$h:tt $($n:tt)*] $t:ident $($ts:ident)*) => { { let $e = &mut $r.$h; $b } $crate::groups!(@ix mut $r, $e, $b; [$($n)*] $($ts)*); };
    (@ix ref $r:ident, $e:ident, $b:block; [$h:tt $($n:tt)*] $t:ident $($ts:ident)*) => { { let $e = &$r.$h; $b } $crate::groups!(@ix ref $r, $e, $b; [$($n)*] $($ts)*); };
}
