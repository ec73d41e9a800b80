#![allow(unused_parens)]
use crate::alloc;
use crate::comp::*;
use crate::sim::{comp_vt, group_vt, CompVt, GroupVt};
use shard_ecs::Component;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::OnceLock;

#[derive(Debug)]
pub struct Fail {
    pub tags: Vec<String>,
    pub msg: String,
}
pub type R = Result<(), Fail>;
pub fn fail(tags: &[&str], msg: String) -> R {
    Err(Fail { tags: tags.iter().map(|s| s.to_string()).collect(), msg })
}
/// Set in a second pass, when the first one only found failures of other properties: observations
/// that fail for other properties are then passed over.
pub static SOFT: OnceLock<String> = OnceLock::new();
/// A failed observation: unlike after a failed operation, the model is still right.
pub fn observed(tags: &[&str], msg: String) -> R {
    match SOFT.get() {
        Some(p) if !tags.contains(&p.as_str()) => Ok(()),
        _ => fail(tags, msg),
    }
}
pub fn take_alloc_error() -> Option<&'static str> {
    match alloc::ERROR.swap(0, SeqCst) {
        0 => None,
        e => Some(alloc::NAMES[e as usize]),
    }
}

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed ^ 0x5DEE_CE66_D1CE_4E5B)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ z >> 30).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ z >> 27).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ z >> 31
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, n: usize, of: usize) -> bool {
        self.below(of) < n
    }
}

macro_rules! tables {
    ( @each ($d:tt) $($all:tt)* ) => {
        #[macro_export]
        macro_rules! each_group { ($d m:ident) => { $d m!{ $($all)* } }; }
    };
    ( comps: $($c:ident)* ; groups: $( ( $($t:ident),* ) )* ) => {
        pub fn comps() -> &'static Vec<CompVt> {
            static T: OnceLock<Vec<CompVt>> = OnceLock::new();
            T.get_or_init(|| vec![$(comp_vt::<$c>()),*])
        }
        pub fn groups() -> &'static Vec<GroupVt> {
            static T: OnceLock<Vec<GroupVt>> = OnceLock::new();
            T.get_or_init(|| vec![$(group_vt::<($($t),*)>()),*])
        }
        crate::groups!{ ; $( ( $($t),* ) )* }
        tables!{ @each ($) $( ( $($t),* ) )* }
    };
}
tables! {
    comps: P1 P2 P4 P8 Z Z64 W Big D1 D2 D3 E0 EM N1 N2 N3 N4 N5 N6 N7 N8 X1 X2 X3 X4 Y1 Y2 Y3 Y4 M1 M2 M3;
    groups:
    (P1) (P2) (P4) (Z) (D1) (D3) (X1) (N1) (W) (E0)
    (P2, P1) (P1, P2) (D1, P4) (P8, D1) (Z, P4) (Z, Z64) (EM, E0) (D1, D2) (D3, D2)
    (X1, X2) (X2, X1) (X3, X4) (X4, X3) (Y2, Y1) (Y3, Y4) (W, P1) (Big, D1)
    (P1, P2, P4) (P4, P1, P2) (P2, P4, P1) (P4, P2, P1) (D1, D2, D3) (D3, D1, D2) (M1, M2, M3) (M3, M1, M2) (X1, X2, X3) (N3, N1, N2)
    (P8, P4, P2, P1) (D2, W, Z, P1) (X1, X4, X3, X2) (P2, P8, P1, P4)
    (Z64, D1, P2, W, P4) (N5, N4, N3, N2, N1)
    (N1, P1, N2, P2, N3, P4)
    (P1, P2, P4, P8, W, Z, D1)
    (N8, N7, N6, N5, N4, N3, N2, N1)
    (D3, D2, D1, P8, P4, P2, P1, Z, W)
    (P1, N1, P2, N2, P4, N3, P8, N4, D1, N5)
    (Z, Z64, W, Big, D1, D2, D3, E0, EM, N1, N2)
    (N1, N2, N3, N4, N5, N6, N7, N8, P1, P2, P4, P8)
    (P8, P4, P2, P1, N8, N7, N6, N5, N4, N3, N2, N1, D1)
    (P1, P2, P4, P8, Z, W, D1, D2, N1, N2, N3, N4, N5, N6)
    (EM, D3, Big, W, N8, N7, P8, P4, P2, P1, Z, D2, D1, E0)
    (P1, P1) (D1, P1, D1) (P4, P2, P4) (Z, Z) (N1, N2, N3, N1)
}
pub fn is_dropping(id: u16) -> bool {
    static T: OnceLock<Vec<bool>> = OnceLock::new();
    T.get_or_init(|| (0..=u16::MAX).map(|i| comps().iter().any(|c| c.id == i && c.drops)).collect())[id as usize]
}
