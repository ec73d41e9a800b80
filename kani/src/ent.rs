//! EntityRegistry: any number of slots (up to the limit of 16,777,215), any contents satisfying the
//! representation invariant. The slots live in a heap block of symbolic size.
//!
//! Invariant (ghost: `rank`, a number per free slot, `free`, the amount of free slots):
//!  * every free slot has 1 <= rank <= free, ranks are pairwise distinct,
//!  * a free slot of rank 1 links to nothing, one of rank r > 1 links to the free slot of rank r - 1,
//!  * the head of the free list is the slot of rank `free`, or nothing if `free` is 0.
//! Hence the list is acyclic, contains every free slot, and is empty iff there is none.
use crate::common::*;
use std::alloc::{alloc, Layout};

/// A vector of symbolic length and capacity, contents unconstrained.
pub unsafe fn any_vec<T>(max: usize) -> Vec<T> {
    let len: usize = kani::any();
    let cap: usize = kani::any();
    kani::assume(cap >= 1 && len <= cap && cap <= max);
    let p = alloc(Layout::from_size_align_unchecked(
        core::mem::size_of::<T>() * cap,
        core::mem::align_of::<T>(),
    )) as *mut T;
    Vec::from_raw_parts(p, len, cap)
}

/// A slot, as observed. `there` is false beyond the last slot.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Snap {
    pub there: bool,
    pub live: bool,
    pub version: u8,
    pub row: u32,
    pub arch: u16,
}
impl Snap {
    pub fn free(&self) -> bool {
        self.there && !self.live
    }
    pub fn is(&self, version: u8) -> bool {
        self.live && self.version == version
    }
}
pub fn snap(r: &EntityRegistry, s: u32) -> Snap {
    let v = r.verif_slots();
    if (s as usize) < v.len() {
        let e = unsafe { v.get_unchecked(s as usize) };
        Snap {
            there: true,
            live: e.archetype_index() != u16::MAX,
            version: e.version(),
            row: e.index_in_archetype().value(),
            arch: e.archetype_index(),
        }
    } else {
        Snap { there: false, live: false, version: 0, row: 0, arch: 0 }
    }
}

/// Any registry; the invariant is assumed at its instances by `Pre::any`.
pub unsafe fn any_registry() -> EntityRegistry {
    EntityRegistry::verif_from_parts(any_vec(MAXE as usize), kani::any())
}

/// The ghost rank of a slot: an arbitrary function, known at finitely many slots.
#[derive(Clone, Copy)]
pub struct Rank {
    pub slot: u32,
    pub rank: u32,
}
fn ghost(slot: u32, known: &[Rank]) -> Rank {
    let r = Rank { slot, rank: kani::any() };
    for k in known {
        kani::assume(k.slot != slot || k.rank == r.rank);
    }
    r
}
/// The invariant of a free slot `s`, given the slot it links to.
fn slot_ok(s: &Snap, rank: u32, free: u32, link: &Snap, link_rank: u32) -> bool {
    !s.free()
        || 1 <= rank
            && rank <= free
            && if rank == 1 {
                s.row == MAXE
            } else {
                s.row != MAXE && link.free() && link_rank == rank - 1
            }
}
fn distinct(a: &Snap, ar: Rank, b: &Snap, br: Rank) -> bool {
    !a.free() || !b.free() || ar.slot == br.slot || ar.rank != br.rank
}

/// A registry satisfying the invariant, with the witnesses: slot k and the slot it links to.
pub struct Pre {
    pub cap: u32,
    pub reg: EntityRegistry,
    pub n: u32,
    pub free: u32,
    pub k: Rank,
    pub ks: Snap,
    pub m: Rank,
    pub ms: Snap,
    pub h: Rank,
    pub hs: Snap,
    pub hm: Rank,
    pub hms: Snap,
}
impl Pre {
    pub unsafe fn any() -> Pre {
        let v: Vec<EntityEntry> = any_vec(MAXE as usize);
        let cap = v.capacity() as u32;
        let reg = EntityRegistry::verif_from_parts(v, kani::any());
        let n = reg.verif_slots().len() as u32;
        let free: u32 = kani::any();
        kani::assume(free <= n);
        // head
        let head = reg.verif_next_free_slot();
        let h = ghost(head, &[]);
        let hs = snap(&reg, head);
        kani::assume(if free == 0 { head == MAXE } else { hs.free() && h.rank == free });
        let hms = snap(&reg, hs.row);
        let hm = ghost(hs.row, &[h]);
        kani::assume(slot_ok(&hs, h.rank, free, &hms, hm.rank));
        // witness
        let k = ghost(kani::any(), &[h, hm]);
        let ks = snap(&reg, k.slot);
        let ms = snap(&reg, ks.row);
        let m = ghost(ks.row, &[h, hm, k]);
        kani::assume(slot_ok(&ks, k.rank, free, &ms, m.rank));
        kani::assume(distinct(&ks, k, &hs, h) && distinct(&ms, m, &hs, h));
        Pre { cap, reg, n, free, k, ks, m, ms, h, hs, hm, hms }
    }
}

/// entity_registry/mod.rs: create_entity, can_register_new_entity. Split into the cases: a free slot
/// exists, no slot is free (with room in the vector, without), and all slots are in use.
#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn create_reusing() {
    create(|p, _| p.free > 0)
}
#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn create_appending() {
    create(|p, cap| p.free == 0 && p.n < cap)
}
#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn create_growing() {
    create(|p, cap| p.free == 0 && p.n == cap && p.n < MAXE)
}
#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn create_full() {
    create(|p, _| p.free == 0 && p.n == MAXE)
}
fn create(case: impl Fn(&Pre, u32) -> bool) {
    unsafe {
        let mut p = Pre::any();
        let c = case(&p, p.cap);
        kani::assume(c);
        let (row, ai): (u32, u16) = (kani::any(), kani::any());
        kani::assume(row < MAXE && ai != u16::MAX);
        let can = p.reg.can_register_new_entity();
        assert!(can == (p.n < MAXE || p.free > 0), "creation is possible unless all slots are live");
        let r = p
            .reg
            .create_entity(IndexInArchetype::new(row).unwrap(), ArchetypeIndex::new(ai).unwrap());
        assert!(r.is_some() == can, "creation succeeds iff possible");
        let n1 = p.reg.verif_slots().len() as u32;
        let after = snap(&p.reg, p.k.slot);
        let mut free = p.free;
        if let Some(e) = r {
            assert!(e.is_valid() && e.index() < MAXE, "never the reserved handle");
            if p.free > 0 {
                free -= 1;
                assert!(n1 == p.n && e.index() < p.n, "free slots are reused first");
            } else {
                assert!(n1 == p.n + 1 && e.index() == p.n && e.version() == 0);
            }
            if p.k.slot == e.index() {
                assert!(!p.ks.live, "the slot of a new entity was not in use");
                assert!(!p.ks.there || p.ks.version == e.version(), "versions persist in free slots");
                assert!(after.live && after.version == e.version(), "the new handle is live");
                assert!(after.arch == ai && after.row == row, "and located as requested");
            } else {
                assert!(after == p.ks, "other slots are untouched");
            }
        } else {
            assert!(n1 == p.n && after == p.ks, "a failed creation changes nothing");
        }
        // invariant
        let head = p.reg.verif_next_free_slot();
        if free == 0 {
            assert!(head == MAXE, "empty free list");
        } else {
            assert!(head == p.hm.slot || p.free == free);
            assert!(snap(&p.reg, head).free(), "the head of the free list is free");
            if p.free != free {
                assert!(head == p.hm.slot && p.hm.rank == free);
            }
        }
        assert!(slot_ok(&after, p.k.rank, free, &snap(&p.reg, after.row), p.m.rank) , "free list link");
        core::mem::forget(p);
    }
}

/// entity_registry/mod.rs: destroy_entity
#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn destroy() {
    unsafe {
        let mut p = Pre::any();
        let e = any_entity();
        let es = snap(&p.reg, e.index());
        let live = es.is(e.version());
        let ok = p.reg.destroy_entity(e);
        assert!(ok == live, "destroy succeeds iff the handle is live");
        assert!(p.reg.verif_slots().len() as u32 == p.n, "slots are never given back");
        let head = p.reg.verif_next_free_slot();
        let after = snap(&p.reg, p.k.slot);
        let mut free = p.free;
        let mut rank = p.k.rank;
        if ok {
            free += 1;
            assert!(head == e.index(), "the slot heads the free list");
            if p.k.slot == e.index() {
                rank = free;
                assert!(after.free(), "the handle is dead");
                assert!(after.version == e.version().wrapping_add(1), "the version advances");
                assert!(after.row == p.h.slot, "the slot links to the former head");
            } else {
                assert!(after == p.ks, "other slots are untouched");
                assert!(slot_ok(&after, rank, free, &snap(&p.reg, after.row), p.m.rank), "free list link");
            }
        } else {
            assert!(head == p.h.slot, "a failed destroy changes nothing");
            assert!(after == p.ks, "a failed destroy changes nothing");
        }
        core::mem::forget(p);
    }
}

/// entity_registry/mod.rs: entity_entry, entity_entry_mut
#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn lookup() {
    unsafe {
        let mut reg = any_registry();
        let e = any_entity();
        let s = snap(&reg, e.index());
        let slot = reg.verif_slots().as_ptr();
        let live = s.is(e.version());
        let r = reg.entity_entry(e).map(|x| x as *const EntityEntry);
        assert!(r.is_some() == live, "a lookup succeeds iff the handle is live");
        if let Some(x) = r {
            assert!(x == slot.add(e.index() as usize), "the slot of the handle");
        }
        let r = reg.entity_entry_mut(e).map(|x| x as *const EntityEntry);
        assert!(r.is_some() == live, "a lookup succeeds iff the handle is live");
        if let Some(x) = r {
            assert!(x == slot.add(e.index() as usize), "the slot of the handle");
        }
        core::mem::forget(reg);
    }
}

/// The preconditions above are satisfiable, with and without free slots.
#[kani::proof]
#[kani::unwind(6)]
#[kani::solver(kissat)]
fn pre_satisfiable() {
    unsafe {
        let p = Pre::any();
        kani::cover!(p.free == 0 && p.n == MAXE);
        kani::cover!(p.free > 3 && p.ks.free() && p.k.slot != p.h.slot && p.n > 70_000);
        core::mem::forget(p);
    }
}

/// The empty registry satisfies the invariant.
#[kani::proof]
fn init() {
    let r = EntityRegistry::default();
    assert!(r.verif_slots().is_empty() && r.verif_next_free_slot() == MAXE);
    assert!(r.can_register_new_entity());
    assert!(r.entity_entry(any_entity()).is_none());
    assert!(EntityRegistry::MAX_ENTITY_COUNT == MAXE as usize);
}
