//! Encodings of handles and slots: loop-free code, full-domain inputs.
use crate::common::*;

const IDX: u32 = 1 << 24;

/// entity.rs: Entity::{new_unchecked, index, version, raw, from_raw}
#[kani::proof]
fn entity_pack() {
    let i: u32 = kani::any();
    let v: u8 = kani::any();
    kani::assume(i < IDX);
    let e = unsafe { Entity::new_unchecked(i, v) };
    kani::cover!(i > 70_000 && v > 3);
    assert!(e.index() == i, "index is read back");
    assert!(e.version() == v, "version is read back");
    assert!(unsafe { Entity::from_raw(e.raw()) } == e, "raw round trip");
    assert!(e.is_valid() == !(i == MAXE && v == 255), "only the reserved handle is invalid");
    let j: u32 = kani::any();
    let w: u8 = kani::any();
    kani::assume(j < IDX);
    let f = unsafe { Entity::new_unchecked(j, w) };
    assert!((e == f) == (i == j && v == w), "handles are equal iff slot and version are");
}

/// entity.rs: Entity::{from_raw, raw, index, version, is_valid, INVALID, default, invalid}
#[kani::proof]
fn entity_raw() {
    let r: u32 = kani::any();
    let e = unsafe { Entity::from_raw(r) };
    assert!(e.raw() == r);
    assert!(e.index() < IDX);
    assert!(unsafe { Entity::new_unchecked(e.index(), e.version()) } == e, "every raw value decodes");
    assert!(e.is_valid() == (e != Entity::INVALID));
    assert!(Entity::default() == Entity::INVALID && Entity::invalid() == Entity::INVALID);
    assert!(Entity::INVALID.raw() == u32::MAX && !Entity::INVALID.is_valid());
    assert!(Entity::INVALID.index() == MAX_ENTITY_HANDLE_VALUE);
    assert!(Entity::INVALID.version() == MAX_ENTITY_VERSION_VALUE);
}

/// entity.rs: Entity::{set_index, set_version}
#[kani::proof]
fn entity_setters() {
    let mut e = any_entity();
    let (i0, v0) = (e.index(), e.version());
    let i: u32 = kani::any();
    let v: u8 = kani::any();
    kani::assume(i < IDX);
    e.set_version(v);
    assert!(e.version() == v && e.index() == i0, "set_version keeps the index");
    let mut f = unsafe { Entity::new_unchecked(i0, v0) };
    unsafe { f.set_index(i) };
    assert!(f.index() == i && f.version() == v0, "set_index keeps the version");
}

/// index_in_archetype.rs, archetype_index.rs
#[kani::proof]
fn index_types() {
    let v: u32 = kani::any();
    match IndexInArchetype::new(v) {
        Some(i) => assert!(v < IndexInArchetype::INVALID_VALUE && i.value() == v),
        None => assert!(v >= IndexInArchetype::INVALID_VALUE),
    }
    assert!(IndexInArchetype::INVALID_VALUE == MAXE);
    kani::cover!(IndexInArchetype::new(v).is_none());
    let w: u32 = kani::any();
    kani::assume(w < IDX);
    let i = unsafe { IndexInArchetype::new_unchecked(w) };
    assert!(i.value() == w);
    assert!(IndexInArchetype::from_bytes(i.to_bytes()) == i, "byte round trip");
    let b: [u8; 3] = kani::any();
    assert!(IndexInArchetype::from_bytes(b).to_bytes() == b);
    assert!(IndexInArchetype::from_bytes(b).value() < IDX);
    assert!(IndexInArchetype::default().value() == 0);
    let a: u16 = kani::any();
    match ArchetypeIndex::new(a) {
        Some(i) => assert!(a != u16::MAX && i.value() == a),
        None => assert!(a == u16::MAX),
    }
    assert!(ArchetypeIndex::INVALID_VALUE == INVALID_ARCHETYPE_INDEX);
}

fn any_entry() -> EntityEntry {
    let mut e = EntityEntry::default();
    e.set_version(kani::any());
    e.set_index_in_archetype(IndexInArchetype::from_bytes(kani::any()));
    e.set_archetype_index(kani::any());
    e
}

/// entry.rs: every setter writes its own field and no other; is_valid, invalidate
#[kani::proof]
fn entry_fields() {
    let v: u8 = kani::any();
    let r: u32 = kani::any();
    let a: u16 = kani::any();
    kani::assume(r < IDX);
    let row = unsafe { IndexInArchetype::new_unchecked(r) };
    let e0 = any_entry();
    let (v0, r0, a0) = (e0.version(), e0.index_in_archetype(), e0.archetype_index());

    let mut e = e0.clone();
    e.set_version(v);
    assert!(e.version() == v && e.index_in_archetype() == r0 && e.archetype_index() == a0);
    let mut e = e0.clone();
    e.set_index_in_archetype(row);
    assert!(e.version() == v0 && e.index_in_archetype() == row && e.archetype_index() == a0);
    let mut e = e0.clone();
    e.set_archetype_index(a);
    assert!(e.version() == v0 && e.index_in_archetype() == r0 && e.archetype_index() == a);
    assert!(e.is_valid() == (a != INVALID_ARCHETYPE_INDEX));
    let mut e = e0.clone();
    unsafe { e.invalidate(r) };
    assert!(!e.is_valid(), "an invalidated slot is free");
    assert!(e.index_in_archetype().value() == r, "the free list link is stored");
    assert!(e.version() == v0, "the version survives");
    kani::cover!(e0.is_valid());
    kani::cover!(!e0.is_valid());
    let d = EntityEntry::default();
    assert!(d.version() == 0);
    assert!(core::mem::size_of::<EntityEntry>() == 6 && core::mem::size_of::<Entity>() == 4);
}
