//! Descriptors: symbolic component descriptors (arbitrary ids, sizes, alignments, destructors).
//! The number of components is bounded by MAX_COMPONENTS_PER_ENTITY = 14, so unrolling is complete.
use crate::common::*;
use shard_ecs::component_descriptor::ComponentDescriptorFnPointers;

unsafe fn f0(_: *mut u8, _: usize) {}
unsafe fn f1(_: *mut u8, n: usize) {
    if n > 7 {
        DROPS += 1;
    }
}

pub fn any_component() -> ComponentDescriptor {
    ComponentDescriptor {
        component_type_id: ComponentTypeId::from_u16(kani::any()),
        size: kani::any(),
        align: kani::any(),
        fns: ComponentDescriptorFnPointers {
            drop_handler: if kani::any() { f0 } else { f1 },
        },
    }
}
pub fn id(c: &ComponentDescriptor) -> u16 {
    c.component_type_id.into_u16()
}
pub fn same(a: &ComponentDescriptor, b: &ComponentDescriptor) -> bool {
    id(a) == id(b)
        && a.size == b.size
        && a.align == b.align
        && a.fns.drop_handler as usize == b.fns.drop_handler as usize
}

/// Contract of fnv1a_hash_32, as used by its callers: a deterministic function of the hashed bytes.
/// (The hash itself is verified in `hash`.) Remembers two calls.
static mut HASH_CALLS: usize = 0;
static mut HASH_BYTES: [[u8; 28]; 2] = [[0; 28]; 2];
static mut HASH_VALUES: [u32; 2] = [0; 2];
pub fn hash_contract(bytes: &[u8], limit: Option<usize>) -> u32 {
    unsafe {
        let n = match limit {
            Some(l) if l > 0 && l <= bytes.len() => l,
            _ => bytes.len(),
        };
        assert!(n <= 28);
        let mut b = [0u8; 28];
        let mut i = 0;
        while i < n {
            b[i] = bytes[i];
            i += 1;
        }
        assert!(n == 28 && HASH_CALLS < 2);
        if HASH_CALLS == 1 && b == HASH_BYTES[0] {
            return HASH_VALUES[0];
        }
        let v = kani::any();
        HASH_BYTES[HASH_CALLS] = b;
        HASH_VALUES[HASH_CALLS] = v;
        HASH_CALLS += 1;
        v
    }
}

/// Contract of ComponentGroupDescriptor::new (validate, sort, mappings, id).
fn group_new<const N: usize>() {
    let input: [ComponentDescriptor; N] = core::array::from_fn(|_| any_component());
    let g = ComponentGroupDescriptor::new(&input);
    // duplicate freedom, at skolem witnesses
    let i: usize = kani::any();
    let j: usize = kani::any();
    kani::assume(i < N && j < N && i != j || N == 1 && i == 0 && j == 0);
    let mut distinct = true;
    for a in 0..N {
        for b in a + 1..N {
            if id(&input[a]) == id(&input[b]) {
                distinct = false;
            }
        }
    }
    if !distinct {
        assert!(!g.is_valid(), "a group with a duplicate component is invalid");
        return;
    }
    // a single component with the reserved id is the only other invalid group
    if N == 1 && id(&input[0]) == u16::MAX {
        // not reachable for valid components; nothing is promised.
        return;
    }
    assert!(g.is_valid(), "a group of distinct components is valid");
    assert!(g.len() as usize == N && g.archetype().len() as usize == N);
    let sorted = g.archetype().components();
    assert!(sorted.len() == N);
    // sorted strictly ascending
    if N > 1 {
        let k: usize = kani::any();
        kani::assume(k < N - 1);
        assert!(id(&sorted[k]) < id(&sorted[k + 1]), "sorted by id");
    }
    // the mapping sends input i to an equal descriptor
    let p = g.unsorted_to_sorted(i as u8) as usize;
    assert!(p < N, "mapping in range");
    assert!(same(&sorted[p], &input[i]), "mapped to the same component");
    assert!(g.sorted_to_unsorted(p as u8) as usize == i, "mappings are inverse");
    if N > 1 {
        assert!(g.unsorted_to_sorted(j as u8) as usize != p, "mapping is injective");
    }
    // id agrees with the id of the component set
    assert!(g.archetype().archetype_id() == ArchetypeDescriptor::compute_archetype_id(sorted));
    kani::cover!(g.is_valid());
}

macro_rules! group_new_harness {
    ($($name:ident, $n:expr);*) => {$(
        #[kani::proof]
        #[kani::unwind(30)]
        #[kani::stub(shard_ecs::fnv1a::fnv1a_hash_32, hash_contract)]
        fn $name() { group_new::<$n>() }
    )*}
}
group_new_harness!(group_new_1, 1; group_new_2, 2; group_new_3, 3; group_new_4, 4; group_new_5, 5; group_new_6, 6; group_new_8, 8; group_new_14, 14);

/// Groups of zero or of more than 14 components are invalid.
#[kani::proof]
#[kani::unwind(30)]
fn group_new_limits() {
    let e: [ComponentDescriptor; 0] = [];
    assert!(!ComponentGroupDescriptor::new(&e).is_valid());
    let f: [ComponentDescriptor; 15] = core::array::from_fn(|_| any_component());
    assert!(!ComponentGroupDescriptor::new(&f).is_valid());
    assert!(!ComponentGroupDescriptor::INVALID.is_valid());
    assert!(!ArchetypeDescriptor::INVALID.is_valid());
}

/// Any valid archetype descriptor: 1..=14 components, strictly ascending ids, id of its set.
pub fn any_archetype_descriptor_raw() -> ArchetypeDescriptor {
    let n: u8 = kani::any();
    kani::assume(n >= 1 && n <= 14);
    let c: [ComponentDescriptor; 14] = core::array::from_fn(|_| any_component());
    let aid: u32 = kani::any();
    kani::assume(aid != u32::MAX);
    ArchetypeDescriptor::new(ArchetypeId::from_u32(aid), n, c)
}
pub fn sorted_distinct(d: &ArchetypeDescriptor) -> bool {
    let c = d.components();
    let mut i = 0;
    while i + 1 < c.len() {
        if id(&c[i]) >= id(&c[i + 1]) {
            return false;
        }
        i += 1;
    }
    true
}
/// archetype_descriptor.rs: contains_subset is set inclusion, excludes_subset is disjointness,
/// for all pairs of valid descriptors. The existential halves use witnesses.
#[kani::proof]
#[kani::unwind(16)]
fn contains_subset_sound() {
    let a = any_archetype_descriptor_raw();
    let b = any_archetype_descriptor_raw();
    kani::assume(sorted_distinct(&a) && sorted_distinct(&b));
    let i: usize = kani::any();
    kani::assume(i < b.len() as usize);
    if a.contains_subset(&b) {
        let mut found = false;
        for j in 0..a.len() as usize {
            found |= id(&a.components()[j]) == id(&b.components()[i]);
        }
        assert!(found, "a contained descriptor has only components of its container");
        kani::cover!(a.len() == 14 && b.len() == 14);
    }
}
#[kani::proof]
#[kani::unwind(16)]
fn contains_subset_complete() {
    let a = any_archetype_descriptor_raw();
    let b = any_archetype_descriptor_raw();
    kani::assume(sorted_distinct(&a) && sorted_distinct(&b));
    for i in 0..b.len() as usize {
        let w: usize = kani::any();
        kani::assume(w < a.len() as usize);
        kani::assume(id(&a.components()[w]) == id(&b.components()[i]));
    }
    assert!(a.contains_subset(&b), "every subset is contained");
    kani::cover!(a.len() == 14 && b.len() == 7);
}
#[kani::proof]
#[kani::unwind(16)]
fn excludes_subset_sound() {
    let a = any_archetype_descriptor_raw();
    let b = any_archetype_descriptor_raw();
    kani::assume(sorted_distinct(&a) && sorted_distinct(&b));
    let i: usize = kani::any();
    let j: usize = kani::any();
    kani::assume(i < b.len() as usize && j < a.len() as usize);
    if id(&a.components()[j]) == id(&b.components()[i]) {
        assert!(!a.excludes_subset(&b), "descriptors sharing a component are not disjoint");
        kani::cover!(a.len() == 14 && b.len() == 14 && i == 13);
    }
}
#[kani::proof]
#[kani::unwind(16)]
#[kani::solver(kissat)]
fn excludes_subset_complete() {
    let a = any_archetype_descriptor_raw();
    let b = any_archetype_descriptor_raw();
    kani::assume(sorted_distinct(&a) && sorted_distinct(&b));
    for i in 0..b.len() as usize {
        for j in 0..a.len() as usize {
            kani::assume(id(&a.components()[j]) != id(&b.components()[i]));
        }
    }
    assert!(a.excludes_subset(&b), "disjoint descriptors are excluded");
}

/// A valid archetype descriptor of N components: ids symbolic and strictly ascending.
/// The remaining fields are tags: the code under contract only moves them.
fn tagged_descriptor<const N: usize>() -> ArchetypeDescriptor {
    let mut c = [ComponentDescriptor::INVALID; 14];
    let mut i = 0;
    while i < N {
        c[i] = tagged(i as u16);
        i += 1;
    }
    let d = ArchetypeDescriptor::new(ArchetypeId::from_u32(1), N as u8, c);
    kani::assume(sorted_distinct(&d));
    d
}
fn tagged(tag: u16) -> ComponentDescriptor {
    ComponentDescriptor {
        component_type_id: ComponentTypeId::from_u16(kani::any()),
        size: tag,
        align: 100 + tag,
        fns: ComponentDescriptorFnPointers {
            drop_handler: if tag % 2 == 0 { f0 } else { f1 },
        },
    }
}
/// The id of a descriptor is the (contractual) hash of its components, or the component itself.
fn id_of_set(d: &ArchetypeDescriptor) -> bool {
    d.archetype_id() == ArchetypeDescriptor::compute_archetype_id(d.components())
}

/// archetype_descriptor.rs: add_component. Component sets have exactly one sorted representation, so
/// the postcondition is stated position by position.
fn descriptor_add<const N: usize>() {
    let d = tagged_descriptor::<N>();
    let c = tagged(77);
    let had = d.components().iter().any(|x| id(x) == id(&c));
    match d.add_component(&c) {
        None => {
            assert!(had || N == 14, "refused only when present or full");
            kani::cover!(had);
        }
        Some(r) => {
            assert!(!had && N < 14, "added only when absent and not full");
            assert!(r.len() as usize == N + 1, "one more component");
            let k: usize = kani::any();
            kani::assume(k <= N);
            let old = d.components();
            let x = &r.components()[k];
            if k < N && id(&old[k]) < id(&c) {
                assert!(same(x, &old[k]), "smaller components stay in place");
            } else if k == 0 || id(&old[k - 1]) < id(&c) {
                assert!(same(x, &c), "the component is inserted in order");
            } else {
                assert!(same(x, &old[k - 1]), "larger components move by one");
            }
            assert!(id_of_set(&r), "the id is the id of the new component set");
            assert!(r.is_valid());
        }
    }
}

/// archetype_descriptor.rs: remove_component
fn descriptor_remove<const N: usize>() {
    let d = tagged_descriptor::<N>();
    let c: u16 = kani::any();
    let had = d.components().iter().any(|x| id(x) == c);
    match d.remove_component(ComponentTypeId::from_u16(c)) {
        None => {
            assert!(!had || N == 1, "refused only when absent or last");
            kani::cover!(!had);
        }
        Some(r) => {
            assert!(had && N > 1, "removed only when present and not the last");
            assert!(r.len() as usize == N - 1, "one component less");
            let k: usize = kani::any();
            kani::assume(N > 1 && k < N - 1);
            let old = d.components();
            let x = &r.components()[k];
            if id(&old[k]) < c {
                assert!(same(x, &old[k]), "smaller components stay in place");
            } else {
                assert!(same(x, &old[k + 1]), "larger components move by one");
            }
            assert!(id_of_set(&r), "the id is the id of the new component set");
            if N > 2 || id(&r.components()[0]) != u16::MAX {
                assert!(r.is_valid());
            }
        }
    }
}
macro_rules! descriptor_harness {
    ($($add:ident, $remove:ident, $n:expr);*) => {$(
        #[kani::proof]
        #[kani::unwind(30)]
        #[kani::stub(shard_ecs::fnv1a::fnv1a_hash_32, hash_contract)]
        fn $add() { descriptor_add::<$n>() }
        #[kani::proof]
        #[kani::unwind(30)]
        #[kani::stub(shard_ecs::fnv1a::fnv1a_hash_32, hash_contract)]
        fn $remove() { descriptor_remove::<$n>() }
    )*}
}
descriptor_harness!(descriptor_add_1, descriptor_remove_1, 1; descriptor_add_2, descriptor_remove_2, 2;
 descriptor_add_5, descriptor_remove_5, 5; descriptor_add_13, descriptor_remove_13, 13;
 descriptor_add_14, descriptor_remove_14, 14);
