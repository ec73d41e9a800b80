//! Archetype: columns of any capacity (up to the limit of 16,777,215 rows) on a symbolic heap, any
//! contents. The component types are representative: the code is generic over size and alignment and
//! only moves bytes. Rows other than the affected ones are observed at a nondeterministic row.
use crate::common::*;

pub trait Shape {
    type G: ComponentGroup;
    /// The observable value of a row.
    type V: Copy + PartialEq;
    fn any() -> (Self::G, Self::V);
    fn take(g: &Self::G) -> Self::V;
    unsafe fn at(a: &Archetype, row: u32) -> Self::V;
    fn refs<'a>(r: &<Self::G as ComponentGroup>::RefTuple<'a>) -> Self::V;
    fn columns() -> usize;
    /// How many destructors a row runs, and the identity of the instance.
    fn drops() -> u32 {
        0
    }
    fn dropped(_: &Self::V) -> u32 {
        0
    }
}
/// Two components of different sizes, given in descending order.
pub struct BA;
impl Shape for BA {
    type G = (CB, CA);
    type V = (u64, u32);
    fn any() -> (Self::G, Self::V) {
        let (b, a) = kani::any();
        ((CB(b), CA(a)), (b, a))
    }
    fn take(g: &Self::G) -> Self::V {
        (g.0 .0, g.1 .0)
    }
    unsafe fn at(a: &Archetype, row: u32) -> Self::V {
        (
            *(a.verif_column(1) as *const u64).add(row as usize),
            *(a.verif_column(0) as *const u32).add(row as usize),
        )
    }
    fn refs<'a>(r: &(&'a CB, &'a CA)) -> Self::V {
        (r.0 .0, r.1 .0)
    }
    fn columns() -> usize {
        2
    }
}
/// A byte, a zero-sized and an over-aligned component.
pub struct CZW;
impl Shape for CZW {
    type G = (CC, CZ, CW);
    type V = (u8, u32);
    fn any() -> (Self::G, Self::V) {
        let (c, w) = kani::any();
        ((CC(c), CZ(()), CW(w)), (c, w))
    }
    fn take(g: &Self::G) -> Self::V {
        (g.0 .0, g.2 .0)
    }
    unsafe fn at(a: &Archetype, row: u32) -> Self::V {
        (
            *a.verif_column(2).add(row as usize),
            (*(a.verif_column(0) as *const CW).add(row as usize)).0,
        )
    }
    fn refs<'a>(r: &(&'a CC, &'a CZ, &'a CW)) -> Self::V {
        (r.0 .0, r.2 .0)
    }
    fn columns() -> usize {
        3
    }
}
/// A component with a destructor.
pub struct DC;
impl Shape for DC {
    type G = (CD, CC);
    type V = (u32, u8);
    fn any() -> (Self::G, Self::V) {
        let (d, c) = kani::any();
        ((CD(d), CC(c)), (d, c))
    }
    fn take(g: &Self::G) -> Self::V {
        (g.0 .0, g.1 .0)
    }
    unsafe fn at(a: &Archetype, row: u32) -> Self::V {
        (
            *(a.verif_column(0) as *const u32).add(row as usize),
            *a.verif_column(1).add(row as usize),
        )
    }
    fn refs<'a>(r: &(&'a CD, &'a CC)) -> Self::V {
        (r.0 .0, r.1 .0)
    }
    fn drops() -> u32 {
        1
    }
    fn dropped(v: &Self::V) -> u32 {
        v.0
    }
    fn columns() -> usize {
        2
    }
}

pub unsafe fn entity_at(a: &Archetype, row: u32) -> u32 {
    (*a.verif_entity_column().add(row as usize)).raw()
}
/// Any archetype: 1 <= capacity <= the limit, any number of rows.
pub unsafe fn any_archetype<G: ComponentGroup>() -> Archetype {
    let cap: u32 = kani::any();
    let len: u32 = kani::any();
    kani::assume(cap >= 1 && cap <= MAXE && len <= cap);
    let mut a = Archetype::with_capacity(G::DESCRIPTOR.archetype(), cap);
    a.verif_set_len(len);
    a
}
/// A row, as observed.
unsafe fn row<S: Shape>(a: &Archetype, r: u32) -> (u32, S::V) {
    (entity_at(a, r), S::at(a, r))
}

macro_rules! proofs {
    ($($f:ident $unwind:literal: $($n:ident $s:ty),*;)*) => { $( $(
        #[kani::proof]
        #[kani::unwind($unwind)]
        #[kani::solver(kissat)]
        fn $n() {
            unsafe { $f::<$s>() }
        }
    )* )* };
}
proofs! {
    with_capacity 16: with_capacity_ba BA, with_capacity_czw CZW;
    push 16: push_ba BA, push_czw CZW, push_dc DC;
    push_full 16: push_full_ba BA, push_full_czw CZW;
    push_empty 16: push_empty_ba BA, push_empty_czw CZW;
    reserve 16: reserve_ba BA;
    swap_drop 34: swap_drop_ba BA, swap_drop_czw CZW, swap_drop_dc DC;
    swap_remove 34: swap_remove_ba BA, swap_remove_czw CZW, swap_remove_dc DC;
    swap_to_last 34: swap_to_last_ba BA, swap_to_last_czw CZW;
    resize 16: resize_ba BA, resize_czw CZW;
    deallocate 16: deallocate_ba BA, deallocate_czw CZW;
    access 16: access_ba BA, access_czw CZW;
}

/// with_capacity: any requested capacity.
unsafe fn with_capacity<S: Shape>() {
    let cap: u32 = kani::any();
    let a = Archetype::with_capacity(<S::G as ComponentGroup>::DESCRIPTOR.archetype(), cap);
    assert!(a.len() == 0, "a new archetype is empty");
    assert!(a.capacity() == if cap > MAXE { 0 } else { cap }, "the capacity is as requested, if possible");
    let d = a.descriptor().components();
    assert!(d.len() == S::columns());
    assert!(a.verif_entity_column() as usize % 4 == 0 && !a.verif_entity_column().is_null());
    for i in 0..S::columns() {
        assert!(!a.verif_column(i).is_null() && a.verif_column(i) as usize % d[i].align as usize == 0, "columns are aligned");
    }
    let k: u32 = kani::any();
    if k < a.capacity() {
        // The storage of every row is usable, down to its last byte.
        *a.verif_entity_column().add(k as usize) = any_entity();
        for i in 0..S::columns() {
            let s = d[i].size as usize;
            if s > 0 {
                *a.verif_column(i).add(k as usize * s) = 1;
                *a.verif_column(i).add(k as usize * s + s - 1) = 1;
            }
        }
    }
    core::mem::forget(a);
}

/// push_entity_unchecked, with room. Frame: every other row.
unsafe fn push<S: Shape>() {
    let mut a = any_archetype::<S::G>();
    kani::assume(a.len() < a.capacity());
    pushed::<S>(&mut a);
    core::mem::forget(a);
}
/// push_entity_unchecked when full: the storage grows, unless the limit is reached.
unsafe fn push_full<S: Shape>() {
    let mut a = any_archetype::<S::G>();
    kani::assume(a.len() == a.capacity() && a.len() < MAXE);
    pushed::<S>(&mut a);
    core::mem::forget(a);
}
/// push_entity_unchecked without any storage.
unsafe fn push_empty<S: Shape>() {
    let mut a = Archetype::with_capacity(<S::G as ComponentGroup>::DESCRIPTOR.archetype(), 0);
    pushed::<S>(&mut a);
    core::mem::forget(a);
}
unsafe fn pushed<S: Shape>(a: &mut Archetype) {
    let (g, v) = S::any();
    let e = any_entity();
    let n = a.len();
    let k: u32 = kani::any();
    let before = if k < n { Some(row::<S>(a, k)) } else { None };
    let d = drops();
    let at = a.push_entity_unchecked(e, g);
    assert!(at == n && a.len() == n + 1, "one row is appended");
    assert!(a.capacity() >= a.len() && a.capacity() <= MAXE, "within the capacity");
    assert!(row::<S>(a, at) == (e.raw(), v), "the new row holds the entity and its components");
    if let Some(b) = before {
        assert!(row::<S>(a, k) == b, "other rows are untouched");
    }
    assert!(drops() == d, "nothing is destroyed");
}
/// push_uninitialized_entity
unsafe fn reserve<S: Shape>() {
    let mut a = any_archetype::<S::G>();
    kani::assume(a.len() < MAXE);
    let n = a.len();
    let k: u32 = kani::any();
    kani::assume(k < n);
    let before = row::<S>(&a, k);
    let at = a.push_uninitialized_entity();
    assert!(at == n && a.len() == n + 1 && a.capacity() >= a.len() && a.capacity() <= MAXE);
    assert!(row::<S>(&a, k) == before, "other rows are untouched");
    let _ = row::<S>(&a, at);
    core::mem::forget(a);
}

/// What removing row `i` does to row `k`.
struct Removal<S: Shape> {
    a: Archetype,
    n: u32,
    i: u32,
    k: u32,
    ri: (u32, S::V),
    rk: (u32, S::V),
    rl: (u32, S::V),
}
unsafe fn removal<S: Shape>() -> Removal<S> {
    let a = any_archetype::<S::G>();
    let n = a.len();
    let (i, k): (u32, u32) = (kani::any(), kani::any());
    kani::assume(i < n && k < n);
    let (ri, rk, rl) = (row::<S>(&a, i), row::<S>(&a, k), row::<S>(&a, n - 1));
    Removal { a, n, i, k, ri, rk, rl }
}
impl<S: Shape> Removal<S> {
    unsafe fn removed(&self, swapped: bool) {
        assert!(swapped == (self.i != self.n - 1), "a swap is reported iff another row moved");
        assert!(self.a.len() == self.n - 1, "one row less");
        if self.k < self.n - 1 {
            let now = row::<S>(&self.a, self.k);
            if self.k == self.i {
                assert!(now == self.rl, "the last row takes the place of the removed one");
            } else {
                assert!(now == self.rk, "other rows are untouched");
            }
        }
    }
}
unsafe fn swap_drop<S: Shape>() {
    let mut r = removal::<S>();
    let d = drops();
    let swapped = r.a.swap_drop_unchecked(r.i);
    r.removed(swapped);
    assert!(drops() == d + S::drops(), "the components of the row are destroyed once");
    if S::drops() > 0 {
        assert!(last_dropped() == S::dropped(&r.ri.1), "no other components are destroyed");
    }
    core::mem::forget(r.a);
}
unsafe fn swap_remove<S: Shape>() {
    let mut r = removal::<S>();
    let d = drops();
    let (g, swapped) = r.a.swap_remove_unchecked::<S::G>(r.i);
    r.removed(swapped);
    assert!(S::take(&g) == r.ri.1, "the components of the row are returned");
    assert!(drops() == d, "nothing is destroyed");
    core::mem::forget(g);
    core::mem::forget(r.a);
}
unsafe fn swap_to_last<S: Shape>() {
    let mut r = removal::<S>();
    let d = drops();
    let swapped = r.a.swap_to_last_unchecked(r.i);
    assert!(r.a.len() == r.n, "no row is removed");
    assert!(row::<S>(&r.a, r.n - 1) == r.ri, "the row is last");
    assert!(drops() == d, "nothing is destroyed");
    r.a.decrement_len_unchecked();
    r.removed(swapped);
    core::mem::forget(r.a);
}

/// resize_capacity: growing and shrinking to any capacity; to none, and beyond the limit.
unsafe fn resize<S: Shape>() {
    let mut a = any_archetype::<S::G>();
    let (n, cap) = (a.len(), a.capacity());
    let change: isize = kani::any();
    kani::assume(change >= -(MAXE as isize) && change <= MAXE as isize);
    let new = cap as isize + change;
    let k: u32 = kani::any();
    kani::assume(k < n && (k as isize) < new);
    let before = row::<S>(&a, k);
    a.verif_resize_capacity(change);
    if new > MAXE as isize {
        assert!(a.capacity() == 0);
    } else {
        assert!(a.capacity() as isize == new, "the capacity changes as requested");
        assert!(row::<S>(&a, k) == before, "rows that fit survive");
        // all of the new storage is usable
        let l = a.capacity() - 1;
        *a.verif_entity_column().add(l as usize) = any_entity();
        let d = a.descriptor().components();
        for i in 0..S::columns() {
            let s = d[i].size as usize;
            if s > 0 {
                *a.verif_column(i).add(l as usize * s + s - 1) = 1;
            }
        }
    }
    core::mem::forget(a);
}
/// dealloc: gives back the storage once; the archetype can be filled again.
unsafe fn deallocate<S: Shape>() {
    let mut a = any_archetype::<S::G>();
    a.verif_set_len(0);
    let d = drops();
    a.verif_dealloc();
    assert!(a.capacity() == 0 && a.len() == 0 && drops() == d);
    if kani::any() {
        a.verif_dealloc(); // without storage: nothing to give back
        assert!(a.capacity() == 0);
        drop(a);
    } else {
        pushed::<S>(&mut a);
        core::mem::forget(a);
    }
}

/// Readers: the reference for a row is the row's storage, and slices have the length of the archetype.
unsafe fn access<S: Shape>() {
    let a = any_archetype::<S::G>();
    let n = a.len();
    let k: u32 = kani::any();
    kani::assume(k < n);
    let v = S::at(&a, k);
    assert!(S::refs(&a.get_fuzzy_components_unchecked::<S::G>(k)) == v, "references read the row");
    let g = core::mem::ManuallyDrop::new(a.read_components_exact_unchecked::<S::G>(k));
    assert!(S::take(&g) == v, "reading the row");
    assert!(a.entities().len() == n as usize && a.entities().as_ptr() == a.verif_entity_column() as *const Entity);
    assert!(a.is_full() == (n == a.capacity()));
    core::mem::forget(a);
}
