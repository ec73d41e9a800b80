//! Tests of parts of the library against executable specifications, and the limits.
use crate::comp::*;
use crate::util::*;
use crate::CURRENT;
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use shard_ecs::archetype_registry::ArchetypeRegistry;
use shard_ecs::component_group::ComponentGroup;
use shard_ecs::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type Part = fn(u64, &mut u64) -> R;
pub fn all() -> Vec<(&'static str, &'static [&'static str], Part)> {
    vec![
        ("encoding", &["C16"], encoding),
        ("hash", &["C17"], hash),
        ("descriptors", &["C14", "C15", "C09", "C17"], descriptors),
        ("tuples", &["C14", "C04"], tuples),
        ("entity-registry", &["C01", "C02", "C12", "C18"], entity_registry),
        ("archetype-registry", &["C09", "C05", "C06", "C18"], archetype_registry),
        ("archetype", &["C13", "C08", "C03"], archetype),
        ("entity-limit", &["C18", "C01", "C13"], entity_limit),
        ("archetype-limit", &["C18", "C05", "C09"], archetype_limit),
        ("reuse", &["C01", "C02"], reuse),
    ]
}
macro_rules! check {
    ($tags:expr, $c:expr, $($m:tt)*) => {
        if !$c {
            return fail(&$tags, format!($($m)*));
        }
    };
}

fn bytes(rng: &mut Rng) -> u32 {
    match rng.below(6) {
        0 => 0,
        1 => u32::MAX,
        2 => 1 << rng.below(32),
        3 => rng.below(256) as u32,
        4 => !(1 << rng.below(32)),
        _ => rng.next() as u32,
    }
}
fn encoding(seed: u64, n: &mut u64) -> R {
    let t = ["C16"];
    let mut rng = Rng::new(seed);
    check!(t, !Entity::INVALID.is_valid() && !Entity::invalid().is_valid() && Entity::INVALID == Entity::invalid(), "the reserved handle");
    check!(t, Entity::INVALID.index() == MAX_ENTITY_HANDLE_VALUE && Entity::INVALID.version() == 255, "the fields of the reserved handle");
    for _ in 0..200_000 {
        *n += 1;
        let (i, v) = (bytes(&mut rng) & 0xFF_FFFF, bytes(&mut rng) as u8);
        let mut e = unsafe { Entity::new_unchecked(i, v) };
        check!(t, e.index() == i && e.version() == v, "Entity({}, {}) reads ({}, {})", i, v, e.index(), e.version());
        let f = unsafe { Entity::from_raw(e.raw()) };
        check!(t, f == e && f.index() == i && f.version() == v, "Entity({}, {}) round trip", i, v);
        check!(t, e.is_valid() == !(i == 0xFF_FFFF && v == 255), "Entity({}, {}).is_valid() = {}", i, v, e.is_valid());
        let (i2, v2) = (bytes(&mut rng) & 0xFF_FFFF, bytes(&mut rng) as u8);
        let o = unsafe { Entity::new_unchecked(i2, v2) };
        check!(t, (o == e) == (i == i2 && v == v2) && (o.raw() == e.raw()) == (o == e), "equality of ({}, {}) and ({}, {})", i, v, i2, v2);
        e.set_version(v2);
        check!(t, e.index() == i && e.version() == v2, "set_version({}) on ({}, {})", v2, i, v);
        unsafe { e.set_index(i2) };
        check!(t, e.index() == i2 && e.version() == v2, "set_index({}) on ({}, {})", i2, i, v2);
        let r = bytes(&mut rng);
        let row = IndexInArchetype::new(r);
        check!(t, row.is_some() == (r < 0xFF_FFFF), "IndexInArchetype::new({})", r);
        if let Some(x) = row {
            check!(t, x.value() == r && IndexInArchetype::from_bytes(x.to_bytes()).value() == r, "IndexInArchetype({})", r);
        }
        let a = bytes(&mut rng) as u16;
        let ai = ArchetypeIndex::new(a);
        check!(t, ai.is_some() == (a != u16::MAX), "ArchetypeIndex::new({})", a);
        if let Some(x) = ai {
            check!(t, x.value() == a, "ArchetypeIndex({})", a);
        }
        let mut x = EntityEntry::default();
        check!(t, x.version() == 0, "the default entry");
        for _ in 0..4 {
            let (pv, pr, pa) = (x.version(), x.index_in_archetype().value(), x.archetype_index());
            let (mut wv, mut wr, mut wa) = (pv, pr, pa);
            match rng.below(4) {
                0 => { wv = v; x.set_version(v) }
                1 => if let Some(y) = row { wr = r; x.set_index_in_archetype(y) },
                2 => { wa = a; x.set_archetype_index(a) }
                _ => { wr = i2; wa = u16::MAX; unsafe { x.invalidate(i2) } }
            }
            check!(t, x.version() == wv && x.index_in_archetype().value() == wr && x.archetype_index() == wa,
                "entry ({}, {}, {}) became ({}, {}, {}), expected ({}, {}, {})", pv, pr, pa, x.version(), x.index_in_archetype().value(), x.archetype_index(), wv, wr, wa);
            check!(t, x.is_valid() == (wa != u16::MAX), "entry ({}, {}, {}) is_valid() = {}", wv, wr, wa, x.is_valid());
        }
    }
    Ok(())
}

fn fnv32(b: &[u8]) -> u32 {
    b.iter().fold(0x811c_9dc5, |h, x| (h ^ *x as u32).wrapping_mul(16_777_619))
}
fn fnv64(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf2_9ce4_8422_2325, |h, x| (h ^ *x as u64).wrapping_mul(1_099_511_628_211))
}
fn fnv16(b: &[u8]) -> u16 {
    let h = fnv32(b);
    h as u16 ^ (h >> 16) as u16
}
fn hash(seed: u64, n: &mut u64) -> R {
    let t = ["C17"];
    use shard_ecs::fnv1a::*;
    let mut rng = Rng::new(seed);
    // published vectors
    check!(t, fnv1a_hash_str_32("") == 0x811c9dc5 && fnv1a_hash_str_32("a") == 0xe40c292c && fnv1a_hash_str_32("foobar") == 0xbf9cf968, "published 32-bit vectors");
    check!(t, fnv1a_hash_str_64("") == 0xcbf29ce484222325 && fnv1a_hash_str_64("a") == 0xaf63dc4c8601ec8c && fnv1a_hash_str_64("foobar") == 0x85944171f73967e8, "published 64-bit vectors");
    for i in 0..100_000 {
        *n += 1;
        let len = if i < 600 { i / 2 } else { rng.below(40) };
        let b: Vec<u8> = (0..len).map(|_| bytes(&mut rng) as u8).collect();
        let limit = match rng.below(4) {
            0 => None,
            1 => Some(rng.below(len + 3)),
            2 => Some(len),
            _ => Some(bytes(&mut rng) as usize),
        };
        let m = match limit {
            Some(l) if l > 0 && l <= len => l,
            _ => len,
        };
        check!(t, fnv1a_hash_32(&b, limit) == fnv32(&b[..m]), "fnv1a_hash_32({:?}, {:?})", b, limit);
        check!(t, fnv1a_hash_64(&b, limit) == fnv64(&b[..m]), "fnv1a_hash_64({:?}, {:?})", b, limit);
        check!(t, fnv1a_hash_16_xor(&b, limit) == fnv16(&b[..m]), "fnv1a_hash_16_xor({:?}, {:?})", b, limit);
        let s: String = b.iter().map(|c| if rng.below(20) == 0 { 'é' } else { (c % 95 + 32) as char }).collect();
        check!(t, fnv1a_hash_str_32(&s) == fnv32(s.as_bytes()) && fnv1a_hash_str_64(&s) == fnv64(s.as_bytes()) && fnv1a_hash_str_16_xor(&s) == fnv16(s.as_bytes()), "hashes of {:?}", s);
    }
    macro_rules! named {
        ($($c:ident)*) => { $(
            let name = <$c as Component>::NAME;
            check!(t, <$c as Component>::ID.into_u16() == fnv16(name.as_bytes()), "the identifier of a component named {:?}", name);
        )* };
    }
    named!(N1 N2 N3 N4 N5 N6 N7 N8);
    Ok(())
}

unsafe fn drop0(_: *mut u8, _: usize) {}
unsafe fn drop1(p: *mut u8, n: usize) {
    std::hint::black_box((p, n));
}
fn any_desc(rng: &mut Rng, id: u16) -> ComponentDescriptor {
    ComponentDescriptor {
        component_type_id: ComponentTypeId::from_u16(id),
        size: bytes(rng) as u16,
        align: 1 << rng.below(8),
        fns: component_descriptor::ComponentDescriptorFnPointers { drop_handler: if rng.below(2) == 0 { drop0 } else { drop1 } },
    }
}
fn same(a: &ComponentDescriptor, b: &ComponentDescriptor) -> bool {
    a.component_type_id == b.component_type_id && a.size == b.size && a.align == b.align && a.fns.drop_handler as usize == b.fns.drop_handler as usize
}
fn ids(d: &ArchetypeDescriptor) -> Vec<u16> {
    d.components().iter().map(|c| c.component_type_id().into_u16()).collect()
}
/// The canonical descriptor of a set of components: sorted, identified by content.
fn well_formed(d: &ArchetypeDescriptor, want: &BTreeMap<u16, ComponentDescriptor>, seen: &mut HashMap<Vec<u16>, ArchetypeId>, t: &[&'static str], what: &str) -> R {
    let w: Vec<u16> = want.keys().copied().collect();
    if d.len() as usize != w.len() || ids(d) != w || !d.is_valid() {
        return fail(t, format!("{}: components {:?}, expected {:?}, valid {}", what, ids(d), w, d.is_valid()));
    }
    for c in d.components() {
        if !same(c, &want[&c.component_type_id().into_u16()]) {
            return fail(t, format!("{}: the descriptor of component {} differs", what, c.component_type_id().into_u16()));
        }
    }
    let id = *seen.entry(w.clone()).or_insert(d.archetype_id());
    if id != d.archetype_id() {
        let mut t = t.to_vec();
        t.push("C09");
        return fail(&t, format!("{}: the set {:?} has two identifiers", what, w));
    }
    Ok(())
}
fn group_of<const N: usize>(rng: &mut Rng, seen: &mut HashMap<Vec<u16>, ArchetypeId>, n: &mut u64) -> R {
    let t = ["C14"];
    for round in 0..40 {
        *n += 1;
        let spread = [3, 16, 40, 65535][rng.below(4)];
        let in_: [ComponentDescriptor; N] = {
            let mut used = BTreeSet::new();
            let dup = round % 4 == 3;
            core::array::from_fn(|_| {
                let mut id = rng.below(spread) as u16;
                while !dup && !used.insert(id) {
                    id = rng.below(65535) as u16;
                }
                any_desc(rng, id)
            })
        };
        let i: Vec<u16> = in_.iter().map(|c| c.component_type_id().into_u16()).collect();
        let distinct = i.iter().collect::<BTreeSet<_>>().len() == N;
        let g = ComponentGroupDescriptor::new(&in_);
        check!(t, g.is_valid() == (distinct && N > 0 && N <= 14), "the group {:?} is valid: {}", i, g.is_valid());
        if !g.is_valid() {
            continue;
        }
        let want: BTreeMap<u16, ComponentDescriptor> = in_.iter().map(|c| (c.component_type_id().into_u16(), c.clone())).collect();
        check!(t, g.len() as usize == N, "the length of {:?}", i);
        well_formed(g.archetype(), &want, seen, &["C14"], &format!("the group {:?}", i))?;
        for k in 0..N {
            let s = g.unsorted_to_sorted(k as u8) as usize;
            check!(t, s < N && same(&g.archetype().components()[s], &in_[k]), "the group {:?} maps element {} to sorted position {}", i, k, s);
            check!(t, g.sorted_to_unsorted(s as u8) as usize == k, "the group {:?} maps sorted position {} to element {}, expected {}", i, s, g.sorted_to_unsorted(s as u8), k);
        }
        // The identity does not depend on the order.
        let mut p: Vec<ComponentDescriptor> = in_.to_vec();
        for x in (1..N).rev() {
            p.swap(x, rng.below(x + 1));
        }
        let p: [ComponentDescriptor; N] = p.try_into().ok().unwrap();
        let h = ComponentGroupDescriptor::new(&p);
        check!(["C14", "C09"], h.archetype().archetype_id() == g.archetype().archetype_id() && ids(h.archetype()) == ids(g.archetype()), "two orders of {:?} differ", i);
    }
    Ok(())
}
fn descriptors(seed: u64, n: &mut u64) -> R {
    let mut rng = Rng::new(seed);
    let mut seen = HashMap::new();
    for _ in 0..8 {
        macro_rules! sizes { ($($x:literal)*) => { $( group_of::<$x>(&mut rng, &mut seen, n)?; )* }; }
        sizes!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 20);
    }
    // The empty group.
    check!(["C14"], !ComponentGroupDescriptor::new(&[]).is_valid(), "the empty group is valid");
    check!(["C14", "C15"], !ComponentGroupDescriptor::INVALID.is_valid() && !ArchetypeDescriptor::INVALID.is_valid() && ArchetypeDescriptor::INVALID.len() == 0, "the invalid descriptors");
    // adding and removing
    let t = ["C15"];
    let single = |rng: &mut Rng, id: u16| {
        let c = any_desc(rng, id);
        let d: ArchetypeDescriptor = ComponentGroupDescriptor::new(&[c.clone()]).archetype().clone();
        (c, d)
    };
    let mut pool: Vec<(BTreeMap<u16, ComponentDescriptor>, ArchetypeDescriptor)> = vec![];
    for _ in 0..400 {
        let spread = [18, 40, 65535][rng.below(3)];
        let first = rng.below(spread) as u16;
        let (c, mut d) = single(&mut rng, first);
        let mut m = BTreeMap::new();
        m.insert(c.component_type_id().into_u16(), c);
        let up = 1 + rng.below(3);
        for _ in 0..40 {
            *n += 1;
            if rng.below(3) < up {
                let id = rng.below(spread) as u16;
                let c = any_desc(&mut rng, id);
                let k = c.component_type_id().into_u16();
                let r = d.add_component(&c);
                let ok = !m.contains_key(&k) && m.len() < 14;
                check!(t, r.is_some() == ok, "adding {} to {:?} gives Some: {}", k, ids(&d), r.is_some());
                if let Some(x) = r {
                    m.insert(k, c);
                    well_formed(&x, &m, &mut seen, &["C15", "C05"], &format!("adding {} to {:?}", k, ids(&d)))?;
                    d = x;
                }
            } else {
                let k = if rng.below(2) == 0 { rng.below(spread) as u16 } else { *m.keys().nth(rng.below(m.len())).unwrap() };
                let r = d.remove_component(ComponentTypeId::from_u16(k));
                let ok = m.contains_key(&k) && m.len() > 1;
                check!(t, r.is_some() == ok, "removing {} from {:?} gives Some: {}", k, ids(&d), r.is_some());
                if let Some(x) = r {
                    m.remove(&k);
                    well_formed(&x, &m, &mut seen, &["C15", "C06"], &format!("removing {} from {:?}", k, ids(&d)))?;
                    d = x;
                }
            }
            macro_rules! has { ($($c:ident)*) => { $(
                let k = <$c as Component>::ID.into_u16();
                check!(t, d.has_component::<$c>() == m.contains_key(&k), "{:?} has {}: {}", ids(&d), k, d.has_component::<$c>());
            )* }; }
            has!(P1 P2 D1 W E0 Z);
            if !pool.is_empty() {
                let (om, od) = &pool[rng.below(pool.len())];
                let sub = om.keys().all(|k| m.contains_key(k));
                let ex = om.keys().all(|k| !m.contains_key(k));
                check!(t, d.contains_subset(od) == sub, "{:?} contains {:?}: {}", ids(&d), ids(od), !sub);
                check!(t, d.excludes_subset(od) == ex, "{:?} excludes {:?}: {}", ids(&d), ids(od), !ex);
                check!(t, d.contains_subset(&d) && !d.excludes_subset(&d), "{:?} contains itself", ids(&d));
            }
            if rng.below(4) == 0 {
                pool.push((m.clone(), d.clone()));
            }
        }
    }
    Ok(())
}

/// The tuple of a group is taken apart and put together per component, in every order.
fn tuples(seed: u64, n: &mut u64) -> R {
    let mut rng = Rng::new(seed);
    fn one<G: TG>(rng: &mut Rng, n: &mut u64) -> R {
        if !G::valid() {
            check!(["C14", "C04"], !G::DESCRIPTOR.is_valid(), "the group {} is valid", G::name());
            return Ok(());
        }
        let t = ["C14", "C04"];
        check!(t, G::DESCRIPTOR.is_valid(), "the group {} is not valid", G::name());
        let v: Vec<u64> = G::ids().iter().map(|_| rng.next() >> 3).collect();
        *n += 1;
        let want = G::norm(&v);
        let mut g = core::mem::ManuallyDrop::new(G::build(&v));
        let mut p = [core::ptr::null_mut(); MAX_COMPONENTS_PER_ENTITY];
        unsafe {
            g.as_sorted_pointers(&mut p);
            for i in 0..G::ids().len() {
                check!(t, !p[i].is_null(), "{}: no pointer for sorted position {}", G::name(), i);
            }
            check!(t, G::refs(&G::pointers_as_ref_tuple(&p)) == want, "{}: references", G::name());
            check!(t, G::mut_vals(&G::pointers_as_mut_ref_tuple(&p)) == want, "{}: mutable references", G::name());
            check!(t, G::slice_row(&G::slice_unchecked(&p, 1), 0) == want && G::slice_lens(&G::slice_unchecked(&p, 1)).iter().all(|l| *l == 1), "{}: slices", G::name());
            check!(t, G::mut_slice_row(&G::slice_unchecked_mut(&p, 1), 0) == want, "{}: mutable slices", G::name());
            check!(t, G::slice_lens(&G::empty_slice()).iter().all(|l| *l == 0) && G::mut_slice_lens(&G::empty_slice_mut()).iter().all(|l| *l == 0), "{}: empty slices", G::name());
            let h = core::mem::ManuallyDrop::new(G::read_from_sorted_pointers(&p));
            check!(t, h.vals() == want, "{}: read back {:x?}, expected {:x?}", G::name(), h.vals(), want);
        }
        core::mem::ManuallyDrop::into_inner(g);
        Ok(())
    }
    live_reset();
    macro_rules! each { ($( ( $($t:ident),* ) )*) => { $( one::<($($t),*)>(&mut rng, n)?; )* }; }
    each_group!(each);
    Ok(())
}

/// EntityRegistry alone.
fn entity_registry(seed: u64, n: &mut u64) -> R {
    let mut rng = Rng::new(seed);
    for round in 0..150 {
        let mut r = EntityRegistry::default();
        let mut live: BTreeMap<u32, (u32, u16)> = BTreeMap::new();
        let mut issued: HashMap<u32, Vec<u32>> = HashMap::new();
        let mut all: Vec<Entity> = vec![];
        let bias = rng.below(4);
        for _ in 0..(if round < 5 { 3000 } else { 120 }) {
            *n += 1;
            if rng.below(6) < 1 + bias {
                let (row, arch) = (rng.below(1 << 24) as u32 % 16_777_215, rng.below(65535) as u16);
                check!(["C18", "C01"], r.can_register_new_entity(), "can_register_new_entity is false with {} entities", live.len());
                let slots = issued.len();
                match r.create_entity(IndexInArchetype::new(row).unwrap(), ArchetypeIndex::new(arch).unwrap()) {
                    None => return fail(&["C18", "C01"], format!("create_entity failed with {} entities", live.len())),
                    Some(e) => {
                        check!(["C01"], e.is_valid() && !live.keys().any(|k| k >> 8 == e.raw() >> 8), "create_entity returned {:?}, in use", e);
                        let h = issued.entry(e.index()).or_default();
                        let from = h.len().saturating_sub(255);
                        check!(["C01", "C02"], !h[from..].contains(&e.raw()), "create_entity returned {:?} again", e);
                        h.push(e.raw());
                        check!(["C18"], slots == live.len() || issued.len() == slots, "create_entity did not reuse a free slot");
                        live.insert(e.raw(), (row, arch));
                        all.push(e);
                    }
                }
            } else if !all.is_empty() {
                let e = match rng.below(5) {
                    0 => unsafe { Entity::from_raw(rng.next() as u32) },
                    1 => { let e = all[rng.below(all.len())]; unsafe { Entity::new_unchecked(e.index(), rng.next() as u8) } }
                    2 => Entity::INVALID,
                    _ => all[rng.below(all.len())],
                };
                let want = live.remove(&e.raw()).is_some();
                let got = r.destroy_entity(e);
                check!(if want { ["C01", "C02"] } else { ["C02", "C02"] }, got == want, "destroy_entity({:?}) = {}", e, got);
            }
            if !all.is_empty() {
                for _ in 0..3 {
                    let e = match rng.below(3) { 0 => unsafe { Entity::from_raw(rng.next() as u32 % 40_000) }, _ => all[rng.below(all.len())] };
                    let w = live.get(&e.raw()).copied();
                    let g = r.entity_entry(e).map(|x| (x.index_in_archetype().value(), x.archetype_index()));
                    check!(["C02", "C01"], g == w, "entity_entry({:?}) = {:?}, expected {:?}", e, g, w);
                    let g = r.entity_entry_mut(e).map(|x| (x.index_in_archetype().value(), x.archetype_index()));
                    check!(["C02", "C01"], g == w, "entity_entry_mut({:?}) = {:?}, expected {:?}", e, g, w);
                }
            }
        }
        let seen: Vec<u32> = r.iter().take(live.len() + 5).map(|e| e.raw()).collect();
        let set: BTreeSet<u32> = seen.iter().copied().collect();
        check!(["C12"], set.len() == seen.len() && set.iter().eq(live.keys()), "iter yields {} ({} distinct) of {} entities", seen.len(), set.len(), live.len());
    }
    Ok(())
}

/// One slot, reused until its versions wrap.
fn reuse(_: u64, n: &mut u64) -> R {
    let mut r = Registry::default();
    let keep = r.create_entity(P4(7)).map_err(|_| ()).unwrap();
    let mut seen: Vec<u32> = vec![];
    for i in 0..700u32 {
        *n += 1;
        let e = match r.create_entity(P4(i)) {
            Ok(e) => e,
            Err(_) => return fail(&["C01", "C18"], format!("creation {} failed", i)),
        };
        let from = seen.len().saturating_sub(255);
        check!(["C01", "C02"], !seen[from..].contains(&e.raw()) && e.raw() != keep.raw(), "handle {:#x} was issued before", e.raw());
        for s in &seen[from..] {
            let s = unsafe { Entity::from_raw(*s) };
            check!(["C02", "C01"], !r.has_component::<P4>(s), "stale handle {:#x} is alive", s.raw());
        }
        check!(["C01", "C04"], r.get_component::<P4>(e).map(|c| c.0) == Some(i), "value of {:#x}", e.raw());
        seen.push(e.raw());
        check!(["C01", "C02"], r.destroy_entity(e) && !r.destroy_entity(e), "destroying {:#x}", e.raw());
    }
    check!(["C01", "C03"], r.get_component::<P4>(keep).map(|c| c.0) == Some(7), "the other entity");
    Ok(())
}

/// ArchetypeRegistry alone: one archetype per set of components.
fn archetype_registry(seed: u64, n: &mut u64) -> R {
    let mut rng = Rng::new(seed);
    macro_rules! table { ($($c:ident)*) => { vec![$((<$c as Component>::ID.into_u16(), <$c as Component>::DESCRIPTOR)),*] }; }
    let cs: Vec<(u16, ComponentDescriptor)> = table!(P1 P2 P4 X1 X2 X3 X4 Y1 Y2 Y3 Y4 M1 M2 M3 Z D1 E0 EM N1 N2);
    for h in 0..60 {
        let mut r = ArchetypeRegistry::default();
        let mut known: Vec<(Vec<u16>, ArchetypeDescriptor)> = vec![];
        let steps = if h % 20 == 19 { 2000 } else { 80 };
        for step in 0..steps {
            *n += 1;
            // a set, often one with a colliding identifier
            let mut set: BTreeSet<u16> = match rng.below(6) {
                0 => [5962, 51917].into(),
                1 => [23662, 54055].into(),
                2 => [[16397, 53857], [5921, 52039]][rng.below(2)].into(),
                _ => BTreeSet::new(),
            };
            if set.is_empty() {
                let most = if rng.below(4) == 0 { 14 } else { 3 };
                for _ in 0..1 + rng.below(most) {
                    if set.len() < 14 {
                        set.insert(cs[rng.below(cs.len())].0);
                    }
                }
            }
            let find = |k: u16| cs.iter().find(|c| c.0 == k).unwrap().1.clone();
            let k: Vec<u16> = set.iter().copied().collect();
            let mut d = ComponentGroupDescriptor::new(&[find(k[0])]).archetype().clone();
            for x in &k[1..] {
                d = match d.add_component(&find(*x)) {
                    Some(d) => d,
                    None => return fail(&["C15", "C05"], format!("adding {} to {:?}", x, ids(&d))),
                };
            }
            let t = ["C09"];
            let pos = known.iter().position(|(s, _)| *s == k);
            let f = r.find_archetype(&d).map(|a| ids(a.descriptor()));
            check!(t, f == pos.map(|_| k.clone()), "find_archetype({:?}) = {:?}", k, f);
            let f = r.find_archetype_mut(&d).map(|a| ids(a.descriptor()));
            check!(t, f == pos.map(|_| k.clone()), "find_archetype_mut({:?}) = {:?}", k, f);
            if !known.is_empty() && rng.below(2) == 0 {
                // through an existing archetype
                let s = rng.below(known.len());
                let c = &cs[rng.below(cs.len())];
                let add = rng.below(2) == 0;
                let mut w: BTreeSet<u16> = known[s].0.iter().copied().collect();
                let ok = if add { w.len() < 14 && w.insert(c.0) } else { w.len() > 1 && w.remove(&c.0) };
                let w: Vec<u16> = w.into_iter().collect();
                let p = known.iter().position(|(x, _)| *x == w);
                let new = known.len();
                let src = known[s].0.clone();
                let got = if add { r.find_or_create_archetype_adding_component(s as u16, &c.1) } else { r.find_or_create_archetype_removing_component(s as u16, &c.1) };
                let tt: [&str; 2] = if add { ["C05", "C09"] } else { ["C06", "C09"] };
                check!(tt, got.is_some() == ok, "archetype {:?} {} {}: Some {}", src, if add { "plus" } else { "minus" }, c.0, got.is_some());
                if let Some((a, i, b)) = got {
                    check!(tt, ids(a.descriptor()) == src && ids(b.descriptor()) == w, "archetype {:?} {} {}: source {:?}, destination {:?}", src, if add { "plus" } else { "minus" }, c.0, ids(a.descriptor()), ids(b.descriptor()));
                    check!(tt, i as usize == p.unwrap_or(new), "archetype {:?} {} {}: index {}", src, if add { "plus" } else { "minus" }, c.0, i);
                    if p.is_none() {
                        let bd = b.descriptor().clone();
                        known.push((w, bd));
                    }
                }
            } else {
                match r.find_or_create_archetype(&d) {
                    None => return fail(&["C09", "C18"], format!("find_or_create_archetype({:?}) is None", k)),
                    Some((i, a)) => {
                        check!(t, i as usize == pos.unwrap_or(known.len()), "find_or_create_archetype({:?}) gives index {}, expected {:?}", k, i, pos);
                        check!(t, ids(a.descriptor()) == k, "find_or_create_archetype({:?}) gives {:?}", k, ids(a.descriptor()));
                    }
                }
                if pos.is_none() {
                    known.push((k, d));
                }
            }
            for (i, (k, d)) in known.iter().enumerate() {
                if steps > 100 && step % 128 != 127 {
                    break;
                }
                check!(t, ids(r[i as u16].descriptor()) == *k, "archetype {} became {:?}", i, ids(r[i as u16].descriptor()));
                check!(t, r.find_archetype(d).map(|a| a as *const Archetype) == Some(&r[i as u16] as *const _), "archetype {:?} is not found", k);
            }
            let out = known.len() as u16 + rng.below(3) as u16;
            check!(["C18", "C05"], r.find_or_create_archetype_adding_component(out, &cs[0].1).is_none(), "an archetype that does not exist was found");
            check!(["C18", "C06"], r.find_or_create_archetype_removing_component(out, &cs[0].1).is_none(), "an archetype that does not exist was found");
        }
        check!(["C09"], r.find_archetype(&ArchetypeDescriptor::INVALID).is_none() && r.find_archetype_mut(&ArchetypeDescriptor::INVALID).is_none() && r.find_or_create_archetype(&ArchetypeDescriptor::INVALID).is_none(), "the invalid archetype is found");
    }
    match take_alloc_error() {
        Some(m) => fail(&["C13", "C09"], m.into()),
        None => Ok(()),
    }
}

/// Archetype alone: the columns against vectors.
fn archetype(seed: u64, n: &mut u64) -> R {
    let mut rng = Rng::new(seed);
    fn one<G: TG>(rng: &mut Rng, n: &mut u64) -> R {
        if !G::valid() {
            return Ok(());
        }
        live_reset();
        let cap = [0, 1, 2, 3, 5, 128, MAX_ENTITIES_PER_ARCHETYPE + 1][rng.below(7)];
        let mut a = Archetype::with_capacity(G::DESCRIPTOR.archetype(), cap);
        let mut m: Vec<(u32, Vec<u64>)> = vec![];
        let t = ["C13", "C03"];
        check!(t, a.len() == 0 && a.capacity() == if cap > MAX_ENTITIES_PER_ARCHETYPE { 0 } else { cap }, "{}: with_capacity({}) has capacity {}", G::name(), cap, a.capacity());
        let len = if rng.below(10) == 0 { 300 } else { 12 };
        let up = 2 + rng.below(5);
        for i in 0..len {
            *n += 1;
            let v: Vec<u64> = G::ids().iter().map(|_| rng.next() >> 3).collect();
            if m.is_empty() || rng.below(8) < up {
                let e = unsafe { Entity::from_raw(rng.next() as u32) };
                let at = unsafe { a.push_entity_unchecked(e, G::build(&v)) };
                check!(t, at as usize == m.len(), "{}: pushed to row {} of {}", G::name(), at, m.len());
                m.push((e.raw(), G::norm(&v)));
            } else {
                let at = if rng.below(3) == 0 { m.len() - 1 } else { rng.below(m.len()) };
                let swapped = at != m.len() - 1;
                match rng.below(3) {
                    0 => {
                        let r = unsafe { a.swap_drop_unchecked(at as u32) };
                        m.swap_remove(at);
                        check!(t, r == swapped, "{}: swap_drop_unchecked({}) = {}", G::name(), at, r);
                    }
                    1 => {
                        let (g, r) = unsafe { a.swap_remove_unchecked::<G>(at as u32) };
                        let w = m.swap_remove(at);
                        let got = g.vals();
                        if got != w.1 {
                            core::mem::forget(g);
                            return fail(&["C13", "C07", "C03"], format!("{}: swap_remove_unchecked({}) read {:x?}, expected {:x?}", G::name(), at, got, w.1));
                        }
                        check!(t, r == swapped, "{}: swap_remove_unchecked({}) = {}", G::name(), at, r);
                    }
                    _ => {
                        let r = unsafe { a.swap_to_last_unchecked(at as u32) };
                        let l = m.len() - 1;
                        m.swap(at, l);
                        check!(t, r == swapped, "{}: swap_to_last_unchecked({}) = {}", G::name(), at, r);
                    }
                }
            }
            check!(t, a.len() as usize == m.len() && a.capacity() >= a.len() && a.is_full() == (a.len() == a.capacity()), "{}: {} rows, capacity {}, expected {}", G::name(), a.len(), a.capacity(), m.len());
            if len < 50 || i % 32 == 0 {
                check!(t, a.entities().iter().map(|e| e.raw()).eq(m.iter().map(|x| x.0)), "{}: the entities differ", G::name());
                let s = unsafe { a.get_slices_unchecked_exact::<G>() };
                let f = unsafe { a.get_fuzzy_slices_unchecked::<G>() };
                for (r, x) in m.iter().enumerate() {
                    check!(t, G::slice_row(&s, r) == x.1 && G::slice_row(&f, r) == x.1, "{}: row {} reads {:x?}, expected {:x?}", G::name(), r, G::slice_row(&s, r), x.1);
                }
            }
            if let Some(e) = take_alloc_error() {
                return fail(&["C13"], format!("{}: {}", G::name(), e));
            }
        }
        drop(a);
        check!(["C08", "C13"], live_count() == 0 && bad_drops().is_empty(), "{}: {} instances leaked, {} destroyed twice", G::name(), live_count(), bad_drops().len());
        match take_alloc_error() {
            Some(e) => fail(&["C13"], format!("{}: {}", G::name(), e)),
            None => Ok(()),
        }
    }
    macro_rules! each { ($( ( $($t:ident),* ) )*) => { for _ in 0..12 { $( one::<($($t),*)>(&mut rng, n)?; )* } }; }
    each_group!(each);
    Ok(())
}

/// 16,777,215 entities.
fn entity_limit(seed: u64, n: &mut u64) -> R {
    CURRENT.with(|c| *c.borrow_mut() = "C18,C13,C01".into());
    let max = MAX_ENTITY_HANDLE_VALUE;
    let mut r = Registry::default();
    let t = ["C18"];
    let mut last = Entity::INVALID;
    for i in 0..max {
        match r.create_entity(P1(i as u8 ^ (i >> 8) as u8)) {
            Ok(e) => {
                if e.index() >= max || i > 0 && e == last {
                    return fail(&["C18", "C01"], format!("entity {} has the handle {:?}", i, e));
                }
                last = e;
            }
            Err(_) => return fail(&t, format!("creating entity {} of {} failed", i, max)),
        }
    }
    *n += max as u64;
    if let Some(e) = take_alloc_error() {
        return fail(&["C13"], e.into());
    }
    match r.create_entity(P1(9)) {
        Ok(e) => return fail(&["C18", "C01"], format!("entity {} was created beyond the limit: {:?}", max, e)),
        Err(c) => check!(t, c.0 == 9, "the component was not returned"),
    }
    match r.create_entity((P1(5), P2(6))) {
        Ok(e) => return fail(&["C18", "C01"], format!("entity {} was created beyond the limit: {:?}", max, e)),
        Err(c) => check!(t, c.0 .0 == 5 && c.1 .0 == 6, "the components were not returned"),
    }
    let mut rows = 0;
    for (es, s) in r.iter_entity_components_matching::<P1>() {
        rows += es.len();
        if es.is_empty() {
            continue;
        }
        for i in (0..es.len()).step_by(4099).chain([es.len() - 1]) {
            let k = es[i].index();
            if s[i].0 != k as u8 ^ (k >> 8) as u8 {
                return fail(&["C13", "C03", "C18"], format!("entity {} reads {} at the limit", k, s[i].0));
            }
        }
    }
    check!(["C18", "C10"], rows == max as usize, "{} rows of {}", rows, max);
    for k in [0, 12345, max - 1, 8_388_608, 65_535, 65_536] {
        let e = unsafe { Entity::new_unchecked(k, 0) };
        check!(["C18", "C01"], r.destroy_entity(e), "destroying {:?} at the limit", e);
        check!(["C18", "C02", "C01"], !r.destroy_entity(e), "destroying {:?} twice at the limit", e);
        let moved = unsafe { Entity::new_unchecked(max - 2, 0) };
        check!(["C18", "C03", "C13"], r.get_component::<P1>(moved).map(|c| c.0) == Some((max - 2) as u8 ^ ((max - 2) >> 8) as u8), "another entity changed at the limit");
        match r.create_entity((P1(5), P2(6))) {
            Ok(e) => {
                check!(["C18", "C01"], e.index() == k && e.version() == 1, "the freed slot {} was not reused: {:?}", k, e);
                check!(["C18", "C04"], r.get_components::<(P2, P1)>(e).map(|c| (c.0 .0, c.1 .0)) == Some((6, 5)), "the new entity at the limit reads wrong");
            }
            Err(_) => return fail(&t, format!("the slot of a destroyed entity ({}) is not reused at the limit", k)),
        }
        check!(t, r.create_entity(P1(0)).is_err(), "an entity was created beyond the limit");
    }
    // many freed slots, in several orders
    let mut rng = Rng::new(seed);
    let mut version = std::collections::BTreeMap::new();
    for round in 0..6 {
        let mut free: Vec<u32> = (0..700).map(|i| match round { 0 => 2_000_000 + 3 * i, 1 => 4_000_000 - 7 * i, _ => (rng.next() % (max as u64 - 3_000_000)) as u32 + 1_000_000 + i }).collect();
        let all: BTreeSet<u32> = free.iter().copied().collect();
        if round > 1 {
            free = all.iter().copied().collect();
            for i in (1..free.len()).rev() {
                free.swap(i, rng.below(i + 1));
            }
        }
        for k in &free {
            if [8_388_608].contains(k) {
                continue;
            }
            let e = unsafe { Entity::new_unchecked(*k, *version.get(k).unwrap_or(&0)) };
            check!(["C18", "C01"], r.destroy_entity(e), "destroying {:?} at the limit", e);
        }
        let mut left = all.clone();
        left.remove(&8_388_608);
        while !left.is_empty() {
            match r.create_entity(P1(1)) {
                Ok(e) => {
                    let v = version.entry(e.index()).or_insert(0);
                    *v += 1;
                    check!(["C18", "C01"], left.remove(&e.index()) && e.version() == *v, "at the limit, {:?} was created, its slot was not free", e);
                }
                Err(_) => return fail(&["C18", "C01"], format!("creation fails at the limit although {} slots are free", left.len())),
            }
        }
        check!(t, r.create_entity(P1(0)).is_err(), "an entity was created beyond the limit");
        *n += 1400;
    }
    drop(r);
    match take_alloc_error() {
        Some(e) => fail(&["C13", "C18"], e.into()),
        None => Ok(()),
    }
}

pub struct K<const I: u16>(u8);
impl<const I: u16> Component for K<I> {
    const NAME: &'static str = "K";
    const ID: ComponentTypeId = ComponentTypeId::from_u16(1000 + I);
}
/// 65,534 archetypes.
fn archetype_limit(_: u64, n: &mut u64) -> R {
    CURRENT.with(|c| *c.borrow_mut() = "C18,C05,C09".into());
    type F = (fn(&mut Registry, Entity, u8) -> Result<(), u8>, fn(&mut Registry, Entity) -> Option<u8>, fn(&Registry, Entity) -> Option<u8>);
    macro_rules! fns { ($($i:literal)*) => { [$( {let x: F = (
        |r: &mut Registry, e: Entity, v: u8| r.add_component(e, K::<$i>(v)).map_err(|c| c.0),
        |r: &mut Registry, e: Entity| r.remove_component::<K<$i>>(e).ok().map(|c| c.0),
        |r: &Registry, e: Entity| r.get_component::<K<$i>>(e).map(|c| c.0),
    ); x}),*] }; }
    let f: [F; 17] = fns!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16);
    let mut r = Registry::default();
    let e = r.create_entity(P1(1)).map_err(|_| ()).unwrap();
    // Every set {P1} + up to 13 of 17 components is an archetype: more than there may be.
    struct S<'a> { r: &'a mut Registry, e: Entity, f: &'a [F; 17], made: usize, set: Vec<usize>, over: Option<Vec<usize>>, tried: usize }
    fn go(s: &mut S, from: usize) -> R {
        for k in from..17 {
            if s.set.len() == 13 || s.over.is_some() && s.tried > 40 {
                return Ok(());
            }
            let full = s.made == MAX_ARCHETYPE_COUNT;
            match (s.f[k].0)(s.r, s.e, k as u8) {
                Ok(()) => {
                    if full {
                        return fail(&["C18"], format!("archetype {} was created beyond the limit", s.made + 1));
                    }
                    s.made += 1;
                    s.set.push(k);
                    go(s, k + 1)?;
                    s.set.pop();
                    let got = (s.f[k].1)(s.r, s.e);
                    if got != Some(k as u8) {
                        return fail(&["C18", "C06"], format!("removing component {} gave {:?} with {} archetypes", k, got, s.made));
                    }
                }
                Err(c) => {
                    if !full {
                        return fail(&["C18", "C05"], format!("adding a component failed with {} archetypes", s.made));
                    }
                    if c != k as u8 {
                        return fail(&["C18", "C05"], "the component was not returned".into());
                    }
                    for j in 0..17 {
                        let w = if s.set.contains(&j) { Some(j as u8) } else { None };
                        if (s.f[j].2)(s.r, s.e) != w {
                            return fail(&["C18", "C05", "C03"], format!("a failed add_component changed component {}", j));
                        }
                    }
                    s.tried += 1;
                    s.over = Some(s.set.clone());
                }
            }
        }
        Ok(())
    }
    let mut s = S { r: &mut r, e, f: &f, made: 1, set: vec![], over: None, tried: 0 };
    go(&mut s, 0)?;
    let made = s.made;
    *n += made as u64;
    check!(["C18"], made == MAX_ARCHETYPE_COUNT && s.over.is_some(), "{} archetypes were created", made);
    // A new set fails and hands the components back, known sets still work.
    match r.create_entity((P4(4), P8(8))) {
        Ok(_) => return fail(&["C18"], "an archetype was created beyond the limit".into()),
        Err(c) => check!(["C18"], c.0 .0 == 4 && c.1 .0 == 8, "the components were not returned"),
    }
    match r.create_entity(P1(77)) {
        Ok(x) => check!(["C18", "C04"], r.get_component::<P1>(x).map(|c| c.0) == Some(77), "an entity at the archetype limit reads wrong"),
        Err(_) => return fail(&["C18"], "create_entity with existing archetype fails at the limit".into()),
    }
    check!(["C18", "C09"], r.iter_components_exact::<P1>().len() == 2, "{} entities have exactly P1", r.iter_components_exact::<P1>().len());
    let chunks = r.iter_components_matching::<P1>().count();
    check!(["C18", "C10"], chunks <= MAX_ARCHETYPE_COUNT, "{} chunks", chunks);
    match take_alloc_error() {
        Some(e) => fail(&["C13", "C18"], e.into()),
        None => Ok(()),
    }
}
