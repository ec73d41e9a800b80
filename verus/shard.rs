// Template of the Verus obligations; see driver/verus.py for the //@ directives and DESIGN.md for the method.
#![allow(unused_imports, unused_variables, dead_code, unused_mut, unused_unsafe, unused_parens)]
use vstd::prelude::*;
use core::mem::{size_of, align_of};
//@macro descriptors/component_descriptor.rs copy_component_descriptor_from_to
//@macro descriptors/component_descriptor.rs define_component_descriptor
verus! {
broadcast use vstd::arithmetic::mul::lemma_mul_is_commutative;


// ---------------------------------------------------------------------------------------------------------------------
// Constants, taken from the code.
//@const constants.rs MAX_ENTITY_HANDLE_VALUE
//@const constants.rs MAX_ENTITIES_PER_ARCHETYPE
//@const constants.rs MAX_COMPONENTS_PER_ENTITY
//@const constants.rs INVALID_ARCHETYPE_INDEX
//@const constants.rs DEFAULT_ARCHETYPE_ALLOCATION_SIZE
//@const constants.rs MAX_ARCHETYPE_COUNT

pub open spec fn MAXE() -> int { 16777215 }
/// Bytes in memory.
pub type Bits = Seq<u8>;

/// Stands for debug_assert! and assert!: the condition has to hold.
pub fn check(b: bool)
    requires b
{}

pub trait IntoSome: Sized {
    fn into_some(self) -> (r: Option<Self>)
        ensures r == Some(self);
}
impl<T> IntoSome for T {
    fn into_some(self) -> (r: Option<T>) { Some(self) }
}

/// get_unchecked and get_unchecked_mut: the index has to be in bounds.
pub trait GetUnchecked<T> {
    spec fn elems(&self) -> Seq<T>;
    unsafe fn get_uc(&self, i: usize) -> (r: &T)
        requires i < self.elems().len()
        ensures *r == self.elems()[i as int];
    unsafe fn get_uc_mut(&mut self, i: usize) -> (r: &mut T)
        requires i < old(self).elems().len()
        ensures *r == old(self).elems()[i as int], final(self).elems() == old(self).elems().update(i as int, *final(r));
}
impl<T> GetUnchecked<T> for Vec<T> {
    open spec fn elems(&self) -> Seq<T> { self@ }
    unsafe fn get_uc(&self, i: usize) -> (r: &T) { &self[i] }
    unsafe fn get_uc_mut(&mut self, i: usize) -> (r: &mut T) { &mut self[i] }
}
impl<T, const N: usize> GetUnchecked<T> for [T; N] {
    open spec fn elems(&self) -> Seq<T> { self@ }
    unsafe fn get_uc(&self, i: usize) -> (r: &T) { &self[i] }
    #[verifier::external_body]
    unsafe fn get_uc_mut(&mut self, i: usize) -> (r: &mut T) { &mut self[i] }
}
impl<T> GetUnchecked<T> for [T] {
    open spec fn elems(&self) -> Seq<T> { self@ }
    unsafe fn get_uc(&self, i: usize) -> (r: &T) { &self[i] }
    unsafe fn get_uc_mut(&mut self, i: usize) -> (r: &mut T) { &mut self[i] }
}

/// std: slice::binary_search_by_key with the key |e| e.component_type_id
pub trait SearchIds {
    fn search_ids(&self, id: &ComponentTypeId) -> (r: Result<usize, usize>);
}
impl SearchIds for [ComponentDescriptor] {
    #[verifier::external_body]
    fn search_ids(&self, id: &ComponentTypeId) -> (r: Result<usize, usize>)
        ensures sorted(ids_of(self@)) ==> match r {
            Ok(i) => i < self@.len() && ids_of(self@)[i as int] == id.0,
            Err(i) => place(ids_of(self@), i as int, id.0) }
    { unimplemented!() }
}

// ---------------------------------------------------------------------------------------------------------------------
// Packed encodings.
/// Whether the bytes of a number are stored from the lowest.
pub uninterp spec fn little_endian() -> bool;
/// The bytes of a number in memory order.
pub open spec fn ne_bytes(v: u16) -> Seq<u8> {
    let s = seq![(v & 0xff) as u8, (v >> 8) as u8];
    if little_endian() { s } else { s.reverse() }
}
/// The number with these bytes.
pub open spec fn of_ne(b: Seq<u8>) -> u16 {
    if little_endian() { (b[0] as u16) | ((b[1] as u16) << 8) } else { (b[1] as u16) | ((b[0] as u16) << 8) }
}
pub open spec fn bytes_of_u32(h: u32) -> Seq<u8> {
    let s = seq![(h & 0xff) as u8, ((h >> 8) & 0xff) as u8, ((h >> 16) & 0xff) as u8, (h >> 24) as u8];
    if little_endian() { s } else { s.reverse() }
}
/// std: to_ne_bytes and from_ne_bytes
pub trait ToNeBytes<const N: usize>: Sized {
    spec fn ne(self) -> Seq<u8>;
    fn to_ne(self) -> (r: [u8; N]) ensures r@ == self.ne();
}
impl ToNeBytes<2> for u16 {
    open spec fn ne(self) -> Seq<u8> { ne_bytes(self) }
    #[verifier::external_body]
    fn to_ne(self) -> (r: [u8; 2]) { self.to_ne_bytes() }
}
impl ToNeBytes<4> for u32 {
    open spec fn ne(self) -> Seq<u8> { bytes_of_u32(self) }
    #[verifier::external_body]
    fn to_ne(self) -> (r: [u8; 4]) { self.to_ne_bytes() }
}
#[verifier::external_body]
pub fn u16_from_ne_bytes(b: [u8; 2]) -> (r: u16) ensures r == of_ne(b@) { u16::from_ne_bytes(b) }
//@lemma
pub broadcast proof fn axiom_ne_bytes(v: u16)
    ensures (#[trigger] ne_bytes(v)).len() == 2, of_ne(ne_bytes(v)) == v, of_ne(seq![ne_bytes(v)[0], ne_bytes(v)[1]]) == v
{
    assert(((v & 0xff) as u8) as u16 | (((v >> 8) as u8) as u16) << 8 == v) by (bit_vector);
    assert(seq![ne_bytes(v)[0], ne_bytes(v)[1]] =~= ne_bytes(v));
}

#[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@struct entity_registry/entity.rs Entity
//@const constants.rs ENTITY_VERSION_BITS
//@const constants.rs ENTITY_HANDLE_BITS
//@const constants.rs MAX_ENTITY_VERSION_VALUE
impl Entity {
    pub const INVALID: Entity = Entity { handle: u32::MAX };
    pub open spec fn idx(self) -> int { self.handle as int / 256 }
    pub open spec fn ver(self) -> int { self.handle as int % 256 }
//@fn entity_registry/entity.rs | const | INVALID -> r as Entity::const_INVALID
        ensures r == Entity::INVALID
//@end
//@fn entity_registry/entity.rs | impl Default for Entity | default -> r as Entity::default
        ensures r == Entity::INVALID
//@end
//@fn entity_registry/entity.rs | impl Entity | from_raw -> r as Entity::from_raw
        ensures r.handle == raw
//@end
//@fn entity_registry/entity.rs | impl Entity | raw -> r as Entity::raw
        ensures r == self.handle
//@end
//@fn entity_registry/entity.rs | impl Entity | new_unchecked -> r as Entity::new_unchecked
        requires index <= 0xffffff
        ensures r.idx() == index, r.ver() == version
//@start
        proof { lemma_pack(index, version); }
//@end
//@fn entity_registry/entity.rs | impl Entity | index -> r as Entity::index
        ensures r == self.idx()
//@start
        proof { lemma_unpack(self.handle); }
//@end
//@fn entity_registry/entity.rs | impl Entity | set_index as Entity::set_index
        requires index <= 0xffffff
        ensures final(self).idx() == index, final(self).ver() == old(self).ver()
//@sub `2u32.pow(ENTITY_HANDLE_BITS as u32)` => `(1u32 << ENTITY_HANDLE_BITS)`
//@start
        proof { lemma_unpack(self.handle); lemma_pack(index, (self.handle % 256) as u8); assert(1u32 << 24u32 == 16777216) by (bit_vector); }
//@end
//@fn entity_registry/entity.rs | impl Entity | version -> r as Entity::version
        ensures r == self.ver()
//@start
        proof { lemma_unpack(self.handle); }
//@end
//@fn entity_registry/entity.rs | impl Entity | set_version as Entity::set_version
        ensures final(self).idx() == old(self).idx(), final(self).ver() == version
//@start
        proof { lemma_unpack(self.handle); lemma_pack((self.handle / 256) as u32, version); lemma_keep(self.handle, version); }
//@end
//@fn entity_registry/entity.rs | impl Entity | is_valid -> r as Entity::is_valid
        ensures r == (*self != Entity::INVALID)
//@end
//@fn entity_registry/entity.rs | impl Entity | invalid -> r as Entity::invalid
        ensures r == Entity::INVALID
//@end
}
/// Index and version are the upper 24 and the lower 8 bits.
//@lemma
pub proof fn lemma_pack(i: u32, v: u8)
    requires i <= 0xffffff
    ensures (i << 8u32) | (v as u32) == i * 256 + v, (v as u32) | (i << 8u32) == i * 256 + v,
        (i << 8u32) + (v as u32) == i * 256 + v, (i << 8u32) ^ (v as u32) == i * 256 + v
{
    assert(i <= 0xffffff ==> (i << 8u32) | (v as u32) == add(mul(i, 256), v as u32)) by (bit_vector);
    assert(i <= 0xffffff ==> (v as u32) | (i << 8u32) == add(mul(i, 256), v as u32)) by (bit_vector);
    assert(i <= 0xffffff ==> (i << 8u32) ^ (v as u32) == add(mul(i, 256), v as u32)) by (bit_vector);
    assert(i <= 0xffffff ==> (i << 8u32) == mul(i, 256)) by (bit_vector);
}
//@lemma
pub proof fn lemma_unpack(h: u32)
    ensures h >> 8u32 == h / 256, (0xFFFFFF & h) as u8 == h % 256, (h & 0xFFFFFF) as u8 == h % 256,
        (0xFF & h) as u8 == h % 256, (h & 0xFF) as u8 == h % 256, 0xFF & h == h % 256, h & 0xFF == h % 256, h as u8 == h % 256
{
    assert(h >> 8u32 == h / 256) by (bit_vector);
    assert((0xFFFFFF & h) as u8 == h % 256) by (bit_vector);
    assert((h & 0xFFFFFF) as u8 == h % 256) by (bit_vector);
    assert((0xFF & h) as u8 == h % 256) by (bit_vector);
    assert((h & 0xFF) as u8 == h % 256) by (bit_vector);
    assert(0xFF & h == h % 256) by (bit_vector);
    assert(h & 0xFF == h % 256) by (bit_vector);
    assert(h as u8 == h % 256) by (bit_vector);
}
/// The same with the index left in place.
//@lemma
pub proof fn lemma_keep(h: u32, v: u8)
    ensures (h & 0xFFFFFF00) | (v as u32) == (h / 256) * 256 + v, (0xFFFFFF00 & h) | (v as u32) == (h / 256) * 256 + v,
        (h & !0xFFu32) | (v as u32) == (h / 256) * 256 + v
{
    assert((h & 0xFFFFFF00) | (v as u32) == add(mul(h / 256, 256), v as u32)) by (bit_vector);
    assert((0xFFFFFF00 & h) | (v as u32) == add(mul(h / 256, 256), v as u32)) by (bit_vector);
    assert((h & !0xFFu32) | (v as u32) == add(mul(h / 256, 256), v as u32)) by (bit_vector);
}

#[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@struct entity_registry/index_in_archetype.rs IndexInArchetype
impl IndexInArchetype {
//@const entity_registry/index_in_archetype.rs INVALID_VALUE
//@fn entity_registry/index_in_archetype.rs | impl IndexInArchetype | new -> r as IndexInArchetype::new
        ensures r == if value < 16777215 { Some(IndexInArchetype { value }) } else { None }
//@end
//@fn entity_registry/index_in_archetype.rs | impl IndexInArchetype | new_unchecked -> r as IndexInArchetype::new_unchecked
        ensures r.value == value
//@end
//@fn entity_registry/index_in_archetype.rs | impl IndexInArchetype | from_bytes -> r as IndexInArchetype::from_bytes
        ensures r.value == triple(bytes@)
//@start
        proof { lemma_triple(bytes@[0], bytes@[1], bytes@[2]); }
//@end
//@fn entity_registry/index_in_archetype.rs | impl IndexInArchetype | to_bytes -> r as IndexInArchetype::to_bytes
        ensures r@[0] == (self.value / 65536) % 256, r@[1] == (self.value / 256) % 256, r@[2] == self.value % 256
//@start
        proof { lemma_split(self.value); }
//@end
//@fn entity_registry/index_in_archetype.rs | impl IndexInArchetype | value -> r as IndexInArchetype::value
        ensures r == self.value
//@end
//@fn entity_registry/index_in_archetype.rs | impl Default for IndexInArchetype | default -> r as IndexInArchetype::default
        ensures r.value == 0
//@end
}
pub open spec fn triple(b: Seq<u8>) -> int { b[0] as int * 65536 + b[1] as int * 256 + b[2] as int }
//@lemma
pub proof fn lemma_triple(a: u8, b: u8, c: u8)
    ensures (a as u32) << 16u32 == a as int * 65536, (b as u32) << 8u32 == b as int * 256,
        ((a as u32) << 16u32) | ((b as u32) << 8u32) == a as int * 65536 + b as int * 256,
        ((a as u32) << 16u32) | ((b as u32) << 8u32) | (c as u32) == a as int * 65536 + b as int * 256 + c as int
{
    assert((a as u32) << 16u32 == mul(a as u32, 65536)) by (bit_vector);
    assert((b as u32) << 8u32 == mul(b as u32, 256)) by (bit_vector);
    assert(((a as u32) << 16u32) | ((b as u32) << 8u32) == add(mul(a as u32, 65536), mul(b as u32, 256))) by (bit_vector);
    assert(((a as u32) << 16u32) | ((b as u32) << 8u32) | (c as u32) == add(add(mul(a as u32, 65536), mul(b as u32, 256)), c as u32)) by (bit_vector);
}
//@lemma
pub proof fn lemma_thirds(v: u32)
    requires v <= 0xffffff
    ensures ((v / 65536) % 256) * 65536 + ((v / 256) % 256) * 256 + v % 256 == v
{
    assert(v <= 0xffffff ==> add(add(mul((v / 65536) % 256, 65536), mul((v / 256) % 256, 256)), v % 256) == v) by (bit_vector);
}
//@lemma
pub proof fn lemma_split(v: u32)
    ensures ((v & 0x00FF0000) >> 16u32) as u8 == (v / 65536) % 256, ((v & 0x0000FF00) >> 8u32) as u8 == (v / 256) % 256,
        (v & 0x000000FF) as u8 == v % 256,
        (v >> 16u32) as u8 == (v / 65536) % 256, (v >> 8u32) as u8 == (v / 256) % 256, v as u8 == v % 256,
        ((v >> 16u32) & 0xFF) as u8 == (v / 65536) % 256, ((v >> 8u32) & 0xFF) as u8 == (v / 256) % 256
{
    assert(((v & 0x00FF0000) >> 16u32) as u8 == (v / 65536) % 256) by (bit_vector);
    assert(((v & 0x0000FF00) >> 8u32) as u8 == (v / 256) % 256) by (bit_vector);
    assert((v & 0x000000FF) as u8 == v % 256) by (bit_vector);
    assert((v >> 16u32) as u8 == (v / 65536) % 256) by (bit_vector);
    assert((v >> 8u32) as u8 == (v / 256) % 256) by (bit_vector);
    assert(v as u8 == v % 256) by (bit_vector);
    assert(((v >> 16u32) & 0xFF) as u8 == (v / 65536) % 256) by (bit_vector);
    assert(((v >> 8u32) & 0xFF) as u8 == (v / 256) % 256) by (bit_vector);
}

#[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@struct entity_registry/archetype_index.rs ArchetypeIndex
impl ArchetypeIndex {
//@const entity_registry/archetype_index.rs INVALID_VALUE
//@fn entity_registry/archetype_index.rs | impl ArchetypeIndex | new -> r as ArchetypeIndex::new
        ensures r == if value != 65535 { Some(ArchetypeIndex { value }) } else { None }
//@end
//@fn entity_registry/archetype_index.rs | impl ArchetypeIndex | value -> r as ArchetypeIndex::value
        ensures r == self.value
//@end
}

/// The packed record.
//@struct entity_registry/entry.rs EntityEntry
impl EntityEntry {
    #[verifier::opaque]
    pub open spec fn ver(&self) -> int { self.values@[0] as int }
    #[verifier::opaque]
    pub open spec fn row(&self) -> int { triple(self.values@.subrange(1, 4)) }
    #[verifier::opaque]
    pub open spec fn arch(&self) -> int { of_ne(self.values@.subrange(4, 6)) as int }
    pub open spec fn live(&self) -> bool { self.arch() != 65535 }
    pub open spec fn is(&self, ver: int, row: int, arch: int) -> bool {
        self.ver() == ver && self.row() == row && self.arch() == arch
    }
//@lemma
    pub proof fn range(&self)
        ensures 0 <= self.ver() < 256, 0 <= self.row() <= 0xffffff, 0 <= self.arch() <= 65535
    { reveal(EntityEntry::ver); reveal(EntityEntry::row); reveal(EntityEntry::arch); }
//@lemma
    pub proof fn lemma_fields(&self)
        ensures self.ver() == self.values@[0], self.row() == triple(seq![self.values@[1], self.values@[2], self.values@[3]]),
            self.arch() == of_ne(seq![self.values@[4], self.values@[5]])
    {
        reveal(EntityEntry::ver); reveal(EntityEntry::row); reveal(EntityEntry::arch);
        assert(self.values@.subrange(4, 6) =~= seq![self.values@[4], self.values@[5]]);
        assert(self.values@.subrange(1, 4) =~= seq![self.values@[1], self.values@[2], self.values@[3]]);
    }
    /// derive(Clone)
    #[verifier::external_body]
    pub fn clone(&self) -> (r: EntityEntry) ensures r == *self { unimplemented!() }
//@fn entity_registry/entry.rs | impl Default for EntityEntry | default -> r as EntityEntry::default
        ensures r.is(0, 0, 0)
//@ret
        proof { assert(of_ne(seq![0u8, 0u8]) == 0) by { assert(0u16 | (0u16 << 8u16) == 0) by (bit_vector); } r.lemma_fields(); }
//@end
//@fn entity_registry/entry.rs | impl EntityEntry | version -> r as EntityEntry::version
        ensures r == self.ver()
//@start
        proof { self.lemma_fields(); }
//@end
//@fn entity_registry/entry.rs | impl EntityEntry | set_version as EntityEntry::set_version
        ensures final(self).is(version as int, old(self).row(), old(self).arch())
//@start
        let ghost o = *self;
//@tail
        proof { o.lemma_fields(); self.lemma_fields(); }
//@end
//@fn entity_registry/entry.rs | impl EntityEntry | index_in_archetype -> r as EntityEntry::index_in_archetype
        ensures r.value == self.row(), r.value <= 0xffffff
//@start
        proof { self.lemma_fields(); }
//@end
//@fn entity_registry/entry.rs | impl EntityEntry | set_index_in_archetype as EntityEntry::set_index_in_archetype
        requires index_in_archetype.value <= 0xffffff
        ensures final(self).is(old(self).ver(), index_in_archetype.value as int, old(self).arch())
//@start
        let ghost o = *self;
//@tail
        proof { o.lemma_fields(); self.lemma_fields(); lemma_thirds(index_in_archetype.value); }
//@end
//@fn entity_registry/entry.rs | impl EntityEntry | archetype_index -> r as EntityEntry::archetype_index
//@sub `u16::from_ne_bytes(` => `u16_from_ne_bytes(`
        ensures r == self.arch()
//@start
        proof { self.lemma_fields(); }
//@end
//@fn entity_registry/entry.rs | impl EntityEntry | set_archetype_index as EntityEntry::set_archetype_index
//@sub `.to_ne_bytes()` => `.to_ne()`
        ensures final(self).is(old(self).ver(), old(self).row(), archetype_index as int)
//@start
        let ghost o = *self;
//@tail
        proof { o.lemma_fields(); self.lemma_fields(); axiom_ne_bytes(archetype_index); }
//@end
//@fn entity_registry/entry.rs | impl EntityEntry | is_valid -> r as EntityEntry::is_valid
        ensures r == self.live()
//@end
//@fn entity_registry/entry.rs | impl EntityEntry | invalidate as EntityEntry::invalidate
        requires next_free_slot <= 0xffffff
        ensures final(self).is(old(self).ver(), next_free_slot as int, 65535)
//@end
}

// ---------------------------------------------------------------------------------------------------------------------
// Entity registry.
//@struct entity_registry/mod.rs EntityRegistry

pub open spec fn is_free(s: Seq<EntityEntry>, i: int) -> bool { 0 <= i < s.len() && !s[i].live() }

/// The free slots form one list: `rank` is the distance of a slot from the end of the list, `n` the list's length.
pub open spec fn chained(s: Seq<EntityEntry>, head: int, n: nat, rank: spec_fn(int) -> nat) -> bool {
    &&& (head != MAXE() ==> is_free(s, head) && rank(head) == n)
    &&& (n == 0 <==> head == MAXE())
    &&& forall|i: int| #[trigger] is_free(s, i) ==> 1 <= rank(i) <= n
        && (rank(i) == 1 <==> s[i].row() == MAXE())
        && (rank(i) > 1 ==> is_free(s, s[i].row()) && rank(s[i].row()) == rank(i) - 1)
    &&& forall|i: int, j: int| #[trigger] is_free(s, i) && #[trigger] is_free(s, j) && i != j ==> rank(i) != rank(j)
}

pub open spec fn listed(s: Seq<EntityEntry>, head: int) -> bool { exists|n: nat, rank: spec_fn(int) -> nat| chained(s, head, n, rank) }

impl EntityRegistry {
    pub open spec fn slots(&self) -> Seq<EntityEntry> { self.entities@ }
    pub open spec fn head(&self) -> int { self.next_free_slot as int }
    pub open spec fn inv(&self) -> bool { self.slots().len() <= MAXE() && listed(self.slots(), self.head()) }
    pub open spec fn slot(&self, e: Entity) -> EntityEntry { self.slots()[e.idx()] }
    /// The handle names a live entity.
    pub open spec fn has(&self, e: Entity) -> bool {
        e.idx() < self.slots().len() && self.slot(e).live() && self.slot(e).ver() == e.ver()
    }
    /// Every handle is in use.
    pub open spec fn full(&self) -> bool {
        self.slots().len() == MAXE() && forall|i: int| 0 <= i < MAXE() ==> #[trigger] self.slots()[i].live()
    }
    pub open spec fn same(&self, o: &EntityRegistry) -> bool { self.slots() =~= o.slots() && self.head() == o.head() }
    pub open spec fn exhausted(&self) -> bool { self.slots().len() == MAXE() && self.head() == MAXE() }
    pub open spec fn creates(&self, o: &EntityRegistry, e: Entity, row: int, arch: int) -> bool {
        if o.head() == MAXE() {
            &&& e.idx() == o.slots().len() && e.ver() == 0
            &&& self.slots() =~= o.slots().push(self.slot(e)) && self.slot(e).is(0, row, arch)
            &&& self.head() == o.head()
        } else {
            &&& e.idx() == o.head() && e.ver() == o.slot(e).ver()
            &&& self.slots() =~= o.slots().update(e.idx(), self.slot(e)) && self.slot(e).is(e.ver(), row, arch)
            &&& self.head() == o.slot(e).row()
        }
    }
    /// The live entity e was given another place.
    pub open spec fn relocates(&self, o: &EntityRegistry, e: Entity) -> bool {
        &&& o.has(e) && self.head() == o.head() && self.slots() =~= o.slots().update(e.idx(), self.slot(e)) && self.slot(e).live()
    }
    pub open spec fn destroys(&self, o: &EntityRegistry, e: Entity) -> bool {
        &&& self.slots() =~= o.slots().update(e.idx(), self.slot(e))
        &&& self.slot(e).is((e.ver() + 1) % 256, o.head(), 65535)
        &&& self.head() == e.idx()
    }

//@const entity_registry/mod.rs MAX_ENTITY_COUNT

//@fn entity_registry/mod.rs | impl Default for EntityRegistry | default -> r as EntityRegistry::default
        ensures r.slots().len() == 0, r.head() == MAXE()
//@end

//@fn entity_registry/mod.rs | impl EntityRegistry | can_register_new_entity -> r as EntityRegistry::can_register_new_entity
        ensures r == !self.exhausted() || self.slots().len() > MAXE()
//@end

//@fn entity_registry/mod.rs | impl EntityRegistry | create_entity -> r as EntityRegistry::create_entity
        requires old(self).inv(), index_in_archetype.value <= 0xffffff
        ensures
            r is None <==> old(self).exhausted(),
            r is None ==> final(self).same(old(self)),
            r matches Some(e) ==> final(self).creates(old(self), e, index_in_archetype.value as int, archetype_index.value as int),
//@end

//@fn entity_registry/mod.rs | impl EntityRegistry | destroy_entity -> r as EntityRegistry::destroy_entity
        requires old(self).inv()
        ensures r == old(self).has(entity), !r ==> final(self).same(old(self)), r ==> final(self).destroys(old(self), entity)
//@end

//@fn entity_registry/mod.rs | impl EntityRegistry | entity_entry -> r as EntityRegistry::entity_entry
        requires self.inv()
        ensures r is Some == self.has(entity), r matches Some(x) ==> *x == self.slot(entity)
//@end

//@fn entity_registry/mod.rs | impl EntityRegistry | entity_entry_mut -> r as EntityRegistry::entity_entry_mut
        requires old(self).inv()
        ensures r is Some == old(self).has(entity), r is None ==> final(self).same(old(self)),
            r matches Some(x) ==> *x == old(self).slot(entity) && final(self).head() == old(self).head()
                && final(self).slots() =~= old(self).slots().update(entity.idx(), *final(x)),
            r matches Some(x) ==> (final(x).live() ==> final(self).relocates(old(self), entity) && (final(self).relocates(old(self), entity) ==> final(self).inv())),
//@start
        broadcast use lemma_relocate;
//@end
}

// Lemmas over these contracts.
//@lemma
pub proof fn lemma_new(r: EntityRegistry)
    requires r.slots().len() == 0, r.head() == MAXE()
    ensures r.inv(), forall|e: Entity| !r.has(e)
{
    let rank = |i: int| 0nat;
    assert(chained(r.slots(), r.head(), 0, rank));
}

/// Running out of handles means that every handle is in use.
//@lemma
pub proof fn lemma_exhausted(r: EntityRegistry)
    requires r.inv()
    ensures r.exhausted() == r.full()
{
    let (n, rank) = choose|n: nat, rank: spec_fn(int) -> nat| chained(r.slots(), r.head(), n, rank);
    assert(chained(r.slots(), r.head(), n, rank));
    if r.exhausted() {
        assert forall|i: int| 0 <= i < MAXE() implies #[trigger] r.slots()[i].live() by { if !r.slots()[i].live() { assert(is_free(r.slots(), i)); } }
    }
    if r.full() && r.head() != MAXE() { assert(is_free(r.slots(), r.head())); assert(r.slots()[r.head()].live()); }
}

/// Creation hands out a valid handle of no live entity, and keeps every live entity where it was.
//@lemma
pub proof fn lemma_create(o: EntityRegistry, r: EntityRegistry, e: Entity, row: int, arch: int)
    requires o.inv(), !o.exhausted(), r.creates(&o, e, row, arch), 0 <= row < MAXE(), 0 <= arch < 65535
    ensures
        r.inv(), e != Entity::INVALID, !o.has(e), r.has(e),
        forall|x: Entity| x != e ==> #[trigger] r.has(x) == o.has(x),
        forall|x: Entity| x != e && o.has(x) ==> #[trigger] r.slot(x) == o.slot(x),
        r.slot(e).row() == row, r.slot(e).arch() == arch,
        !o.full(),
{
    let (n, rank) = choose|n: nat, rank: spec_fn(int) -> nat| chained(o.slots(), o.head(), n, rank);
    assert(chained(o.slots(), o.head(), n, rank));
    lemma_exhausted(o);
    assert forall|x: Entity| x.idx() == e.idx() && x.ver() == e.ver() implies x == e by { assert(x.handle == e.handle); }
    if o.head() == MAXE() {
        assert forall|i: int| is_free(r.slots(), i) implies is_free(o.slots(), i) by {}
        assert forall|i: int| is_free(o.slots(), i) implies is_free(r.slots(), i) && r.slots()[i] == o.slots()[i] by {}
        assert(chained(r.slots(), r.head(), n, rank));
    } else {
        assert(is_free(o.slots(), o.head()));
        let n1 = (n - 1) as nat;
        assert forall|i: int| is_free(r.slots(), i) implies is_free(o.slots(), i) && i != o.head() && r.slots()[i] == o.slots()[i] by {}
        assert forall|i: int| is_free(o.slots(), i) && i != o.head() implies is_free(r.slots(), i) by {}
        assert forall|i: int| is_free(r.slots(), i) && rank(i) > 1 implies r.slots()[i].row() != o.head() by {
            assert(is_free(o.slots(), i));
            assert(rank(o.slots()[i].row()) == rank(i) - 1);
        }
        assert(chained(r.slots(), r.head(), n1, rank));
    }
}

/// A live slot given other contents, still live, keeps the list of free slots.
//@lemma
pub proof fn lemma_move_slot(s: Seq<EntityEntry>, t: Seq<EntityEntry>, head: int, k: int)
    requires listed(s, head), 0 <= k < s.len(), s[k].live(), t =~= s.update(k, t[k]), t[k].live()
    ensures listed(t, head)
{
    let (n, rank) = choose|n: nat, rank: spec_fn(int) -> nat| chained(s, head, n, rank);
    assert(chained(s, head, n, rank));
    assert forall|i: int| is_free(t, i) == is_free(s, i) by {}
    assert forall|i: int| is_free(s, i) implies is_free(t, i) && t[i] == s[i] by {}
    assert(chained(t, head, n, rank));
}
/// A live slot freed becomes the head of the list.
//@lemma
pub proof fn lemma_free_slot(s: Seq<EntityEntry>, t: Seq<EntityEntry>, head: int, k: int)
    requires listed(s, head), 0 <= k < s.len() <= MAXE(), s[k].live(), t =~= s.update(k, t[k]), !t[k].live(), t[k].row() == head
    ensures listed(t, k)
{
    let (n, rank) = choose|n: nat, rank: spec_fn(int) -> nat| chained(s, head, n, rank);
    assert(chained(s, head, n, rank));
    let rank2 = |i: int| if i == k { (n + 1) as nat } else { rank(i) };
    assert(!is_free(s, k));
    assert forall|i: int| is_free(t, i) && i != k implies is_free(s, i) && t[i] == s[i] by {}
    assert forall|i: int| is_free(s, i) implies is_free(t, i) && i != k by {}
    assert(is_free(t, k));
    assert(chained(t, k, (n + 1) as nat, rank2));
}
//@lemma
pub broadcast proof fn lemma_relocate(r: EntityRegistry, o: EntityRegistry, e: Entity)
    requires o.inv(), #[trigger] r.relocates(&o, e)
    ensures r.inv()
{
    lemma_move_slot(o.slots(), r.slots(), o.head(), e.idx());
}

/// Destruction frees the slot, bumps its version, and keeps every other entity.
//@lemma
pub proof fn lemma_destroy(o: EntityRegistry, r: EntityRegistry, e: Entity)
    requires o.inv(), o.has(e), r.destroys(&o, e)
    ensures
        r.inv(), !r.has(e), !r.exhausted(), !r.full(),
        forall|x: Entity| x != e ==> #[trigger] r.has(x) == o.has(x),
        forall|x: Entity| x != e && o.has(x) ==> #[trigger] r.slot(x) == o.slot(x),
{
    assert forall|x: Entity| x.idx() == e.idx() && x.ver() == e.ver() implies x == e by { assert(x.handle == e.handle); }
    lemma_free_slot(o.slots(), r.slots(), o.head(), e.idx());
    lemma_exhausted(r);
}

// ---------------------------------------------------------------------------------------------------------------------
// Identifiers and hashes.
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@struct descriptors/component_type_id.rs ComponentTypeId
impl ComponentTypeId {
    pub const INVALID: ComponentTypeId = ComponentTypeId(65535);
//@fn descriptors/component_type_id.rs | impl ComponentTypeId | is_valid -> r as ComponentTypeId::is_valid
        ensures r == (self.0 != 65535)
//@end
//@fn descriptors/component_type_id.rs | impl ComponentTypeId | from_u16 -> r as ComponentTypeId::from_u16
        ensures r.0 == v
//@end
//@fn descriptors/component_type_id.rs | const | INVALID -> r as ComponentTypeId::const_INVALID
        ensures r == ComponentTypeId::INVALID
//@end
//@fn descriptors/component_type_id.rs | impl From<u16> for ComponentTypeId | from -> r as ComponentTypeId::from
        ensures r.0 == v
//@end
//@fn descriptors/component_type_id.rs | impl ComponentTypeId | into_u16 -> r as ComponentTypeId::into_u16
        ensures r == self.0
//@end
//@fn descriptors/component_type_id.rs | impl ComponentTypeId | to_ne_bytes -> r as ComponentTypeId::to_ne_bytes
//@sub `.to_ne_bytes()` => `.to_ne()`
        ensures r@ == ne_bytes(self.0)
//@end
}

#[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@struct descriptors/archetype_id.rs ArchetypeId
impl ArchetypeId {
    pub const INVALID: ArchetypeId = ArchetypeId(0xffff_ffff);
//@fn descriptors/archetype_id.rs | impl ArchetypeId | is_valid -> r as ArchetypeId::is_valid
        ensures r == (self.0 != 0xffff_ffff)
//@end
//@fn descriptors/archetype_id.rs | impl ArchetypeId | from_u32 -> r as ArchetypeId::from_u32
        ensures r.0 == v
//@end
//@fn descriptors/archetype_id.rs | const | INVALID -> r as ArchetypeId::const_INVALID
        ensures r == ArchetypeId::INVALID
//@end
//@fn descriptors/archetype_id.rs | impl From<u32> for ArchetypeId | from -> r as ArchetypeId::from
        ensures r.0 == v
//@end
//@fn descriptors/component_type_id.rs | impl From<ComponentTypeId> for ArchetypeId | from -> r as ArchetypeId::from_component
//@sub `fn from(` => `fn from_component(`
        ensures r.0 == value.0
//@end
//@fn descriptors/archetype_id.rs | impl ArchetypeId | to_ne_bytes -> r as ArchetypeId::to_ne_bytes
//@sub `.to_ne_bytes()` => `.to_ne()`
        ensures r@ == bytes_of_u32(self.0)
//@end
//@fn descriptors/archetype_id.rs | impl ArchetypeId | into_u32 -> r as ArchetypeId::into_u32
        ensures r == self.0
//@end
}

/// FNV-1a, as published: start from the offset basis; for each byte, xor then multiply by the prime.
pub open spec fn fnv32(b: Seq<u8>) -> u32
    decreases b.len()
{
    if b.len() == 0 { 0x811c9dc5 } else {
        let h: u32 = fnv32(b.drop_last()) ^ (b.last() as u32);
        ((h * 0x01000193) % 0x1_0000_0000) as u32
    }
}
pub open spec fn fnv64(b: Seq<u8>) -> u64
    decreases b.len()
{
    if b.len() == 0 { 0xcbf29ce484222325 } else {
        let h: u64 = fnv64(b.drop_last()) ^ (b.last() as u64);
        ((h * 0x00000100000001B3) % 0x1_0000_0000_0000_0000) as u64
    }
}
pub open spec fn limited(b: Seq<u8>, limit: Option<usize>) -> Seq<u8> {
    match limit { Some(v) => if 0 < v <= b.len() { b.take(v as int) } else { b }, None => b }
}
//@const fnv1a.rs FNV_OFFSET_BASIS_32
//@const fnv1a.rs FNV_OFFSET_BASIS_64
//@const fnv1a.rs FNV_PRIME_32
//@const fnv1a.rs FNV_PRIME_64

//@fn fnv1a.rs | - | fnv1a_hash_32 -> r
    ensures r == fnv32(limited(bytes@, limit))
//@loop 1
        invariant len == limited(bytes@, limit).len(), len <= bytes.len(), i <= len, limited(bytes@, limit) == bytes@.take(len as int),
            hash == fnv32(bytes@.take(i as int))
        decreases len - i
//@body 1
        proof { assert(bytes@.take(i + 1).drop_last() =~= bytes@.take(i as int)); }
//@start
    proof { assert(bytes@.take(0) =~= Seq::<u8>::empty()); assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
//@end

//@fn fnv1a.rs | - | fnv1a_hash_64 -> r
    ensures r == fnv64(limited(bytes@, limit))
//@loop 1
        invariant len == limited(bytes@, limit).len(), len <= bytes.len(), i <= len, limited(bytes@, limit) == bytes@.take(len as int),
            hash == fnv64(bytes@.take(i as int))
        decreases len - i
//@body 1
        proof { assert(bytes@.take(i + 1).drop_last() =~= bytes@.take(i as int)); }
//@start
    proof { assert(bytes@.take(0) =~= Seq::<u8>::empty()); assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
//@end
/// XOR of the halves.
pub open spec fn folded(h: u32) -> u16 { ((h & 0xffff) ^ (h >> 16)) as u16 }
/// The bytes of a string (std: str::as_bytes).
pub uninterp spec fn utf8(s: &str) -> Seq<u8>;
#[verifier::external_body]
pub const fn utf8_of(s: &str) -> (r: &[u8]) ensures r@ == utf8(s) { s.as_bytes() }
//@fn fnv1a.rs | - | fnv1a_hash_16_xor -> r
//@sub `.to_ne_bytes()` => `.to_ne()`
//@sub `u16::from_ne_bytes(` => `u16_from_ne_bytes(`
    ensures r == folded(fnv32(limited(bytes@, limit)))
//@start
    proof {
        let h: u32 = fnv32(limited(bytes@, limit));
        assert(bytes_of_u32(h).len() == 4);
        assert(((h >> 16) as u16) ^ (h as u16) == ((h & 0xffff) ^ (h >> 16)) as u16) by (bit_vector);
        assert((h as u16) ^ ((h >> 16) as u16) == ((h & 0xffff) ^ (h >> 16)) as u16) by (bit_vector);
        assert(((h >> 16) ^ (h & 0xffff)) as u16 == ((h & 0xffff) ^ (h >> 16)) as u16) by (bit_vector);
        assert(((h >> 16) ^ h) as u16 == ((h & 0xffff) ^ (h >> 16)) as u16) by (bit_vector);
        assert((h & 0xffff) as u16 == h as u16 && ((h >> 16) & 0xffff) as u16 == (h >> 16) as u16) by (bit_vector);
        assert((h ^ (h >> 16)) as u16 == ((h & 0xffff) ^ (h >> 16)) as u16) by (bit_vector);
        assert((((h & 0xff) as u8) as u16 | ((((h >> 8) & 0xff) as u8) as u16) << 8) ^ ((((h >> 16) & 0xff) as u8) as u16 | (((h >> 24) as u8) as u16) << 8) == ((h & 0xffff) ^ (h >> 16)) as u16) by (bit_vector);
        assert(((((h >> 16) & 0xff) as u8) as u16 | (((h >> 24) as u8) as u16) << 8) ^ (((h & 0xff) as u8) as u16 | ((((h >> 8) & 0xff) as u8) as u16) << 8) == ((h & 0xffff) ^ (h >> 16)) as u16) by (bit_vector);
    }
//@end
//@fn fnv1a.rs | - | fnv1a_hash_str_16_xor -> r
//@sub `input.as_bytes()` => `utf8_of(input)`
    ensures r == folded(fnv32(utf8(input)))
//@end
//@fn fnv1a.rs | - | fnv1a_hash_str_32 -> r
//@sub `input.as_bytes()` => `utf8_of(input)`
    ensures r == fnv32(utf8(input))
//@end
//@fn fnv1a.rs | - | fnv1a_hash_str_64 -> r
//@sub `input.as_bytes()` => `utf8_of(input)`
    ensures r == fnv64(utf8(input))
//@end

// ---------------------------------------------------------------------------------------------------------------------
// Component and archetype descriptors.
/// The code has a function pointer here.
#[derive(Copy, Clone)]
pub struct ComponentDescriptorFnPointers { pub drop_handler: usize }

//@struct descriptors/component_descriptor.rs ComponentDescriptor
impl ComponentDescriptor {
    pub open spec fn id(&self) -> u16 { self.component_type_id.0 }
    /// derive(Clone)
    #[verifier::external_body]
    pub fn clone(&self) -> (r: ComponentDescriptor) ensures r == *self { unimplemented!() }
    pub const INVALID: ComponentDescriptor = ComponentDescriptor {
        component_type_id: ComponentTypeId(65535), size: 0, align: 0, fns: ComponentDescriptorFnPointers { drop_handler: 0 } };
//@fn descriptors/component_descriptor.rs | impl ComponentDescriptor | component_type_id -> r as ComponentDescriptor::component_type_id
        ensures r == self.component_type_id
//@end
//@fn descriptors/component_descriptor.rs | impl ComponentDescriptor | size -> r as ComponentDescriptor::size
        ensures r == self.size
//@end
//@fn descriptors/component_descriptor.rs | impl ComponentDescriptor | align -> r as ComponentDescriptor::align
        ensures r == self.align
//@end
//@fn descriptors/component_descriptor.rs | impl ComponentDescriptor | new -> r as ComponentDescriptor::new
//@sub `unsafe fn(ptr: *mut u8, len: usize)` => `usize`
        ensures r == if component_type_id.0 == 65535 { ComponentDescriptor::INVALID }
            else { ComponentDescriptor { component_type_id, size, align, fns: ComponentDescriptorFnPointers { drop_handler } } }
//@end
    /// From<ComponentTypeId> for ArchetypeId takes the place of `.into()`.
//@fn descriptors/component_descriptor.rs | impl Into<ArchetypeDescriptor> for &ComponentDescriptor | into -> r as ComponentDescriptor::into
//@sub `fn into(self)` => `fn into(&self)`
//@sub `self.component_type_id.into_some()` => `ArchetypeId::from_component(self.component_type_id)`
        ensures r.len == 1, r.parts() == seq![*self], self.id() != 65535 ==> r.archetype_id.0 == set_id(r.ids()), described(*self) && self.id() != 65535 ==> r.ok()
//@ret
        proof { reveal(set_id); assert(r.parts() =~= seq![*self]); assert(r.ids() =~= seq![self.id()]); }
//@end
//@fn descriptors/component_descriptor.rs | impl Into<ArchetypeDescriptor> for ComponentDescriptor | into -> r as ComponentDescriptor::into_owned
//@sub `fn into(self)` => `fn into_owned(self)`
//@sub `self.component_type_id.into_some()` => `ArchetypeId::from_component(self.component_type_id)`
        ensures r.len == 1, r.parts() == seq![self], self.id() != 65535 ==> r.archetype_id.0 == set_id(r.ids()), described(self) && self.id() != 65535 ==> r.ok()
//@start
        let ghost o = self;
//@ret
        proof { reveal(set_id); assert(r.parts() =~= seq![o]); assert(r.ids() =~= seq![o.id()]); }
//@end
}

/// The descriptor of the type with this identifier: distinct types have distinct identifiers.
pub uninterp spec fn descr(id: u16) -> ComponentDescriptor;
/// The bytes are a value of the type with this identifier.
pub uninterp spec fn valid_bits(id: u16, b: Bits) -> bool;
/// A descriptor of a type: power of two alignment, of which the size is a multiple.
pub open spec fn described(d: ComponentDescriptor) -> bool { d == descr(d.id()) && align_ok(d.align as int) && d.size % d.align == 0 }
pub open spec fn align_ok(a: int) -> bool { 1 <= a && exists|k: nat| #[trigger] vstd::arithmetic::power2::pow2(k) == a }

pub open spec fn sorted(s: Seq<u16>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j] }
pub open spec fn ascending(s: Seq<u16>) -> bool { sorted(s) }
pub open spec fn ids_of(s: Seq<ComponentDescriptor>) -> Seq<u16> { Seq::new(s.len(), |i: int| s[i].id()) }
/// The bytes hashed for a set of two or more types: their identifiers in order, padded with zeros to 28 bytes.
pub open spec fn id_bytes(ids: Seq<u16>) -> Seq<u8> {
    Seq::new(28, |k: int| if k / 2 < ids.len() { ne_bytes(ids[k / 2])[k % 2] } else { 0u8 })
}
/// The identifier of a set of types, given in order.
#[verifier::opaque]
pub open spec fn set_id(ids: Seq<u16>) -> u32 {
    if ids.len() == 0 { 0xffff_ffff } else if ids.len() == 1 { ids[0] as u32 } else {
        let h = fnv32(id_bytes(ids));
        if h == 0xffff_ffff { 0 } else { h }
    }
}

/// x belongs in front of the k-th identifier.
pub open spec fn place(ids: Seq<u16>, k: int, x: u16) -> bool {
    &&& 0 <= k <= ids.len()
    &&& forall|j: int| 0 <= j < k ==> #[trigger] ids[j] < x
    &&& forall|j: int| k <= j < ids.len() ==> #[trigger] ids[j] > x
}

pub open spec fn place_of(ids: Seq<u16>, x: u16) -> int { choose|k: int| place(ids, k, x) }
//@lemma
pub broadcast proof fn lemma_place(ids: Seq<u16>, k: int, x: u16)
    ensures #[trigger] place(ids, k, x) ==> k == place_of(ids, x)
{
    if place(ids, k, x) {
        let j = place_of(ids, x);
        assert(place(ids, j, x));
        if j < k { assert(ids[j] < x); assert(ids[j] > x); }
        if k < j { assert(ids[k] < x); assert(ids[k] > x); }
    }
}

//@struct descriptors/archetype_descriptor.rs ArchetypeDescriptor
impl ArchetypeDescriptor {
    pub open spec fn parts(&self) -> Seq<ComponentDescriptor> { self.components@.take(self.len as int) }
    pub open spec fn ids(&self) -> Seq<u16> { ids_of(self.parts()) }
    pub open spec fn set(&self) -> Set<u16> { self.ids().to_set() }
    pub open spec fn valid(&self) -> bool { self.archetype_id.0 != 0xffff_ffff }
    /// Canonical: between 1 and 14 types, in strictly increasing order of their identifiers, with the identifier of that set.
    pub open spec fn ok(&self) -> bool {
        1 <= self.len <= 14 && sorted(self.ids()) && self.archetype_id.0 == set_id(self.ids())
            && forall|c: int| 0 <= c < self.len ==> described(#[trigger] self.parts()[c])
    }
    pub open spec fn can_add(&self, x: u16) -> bool { self.len < 14 && !self.set().contains(x) }
    pub open spec fn can_remove(&self, x: u16) -> bool { self.len > 1 && self.set().contains(x) }
    pub open spec fn ids_adding(&self, x: u16) -> Seq<u16> { self.ids().insert(place_of(self.ids(), x), x) }
    pub open spec fn ids_removing(&self, x: u16) -> Seq<u16> { self.ids().remove(self.ids().index_of(x)) }
    /// Type c inserted at its place, all others kept in order.
    pub open spec fn adds(&self, o: &ArchetypeDescriptor, c: ComponentDescriptor) -> bool {
        &&& self.len == o.len + 1 && self.archetype_id.0 == set_id(self.ids())
        &&& self.parts() =~= o.parts().insert(place_of(o.ids(), c.id()), c)
    }
    /// The type with identifier x taken out, all others kept in order.
    pub open spec fn removes(&self, o: &ArchetypeDescriptor, x: u16) -> bool {
        &&& self.len == o.len - 1 && self.archetype_id.0 == set_id(self.ids())
        &&& self.parts() =~= o.parts().remove(o.ids().index_of(x))
    }
    /// derive(Clone)
    #[verifier::external_body]
    pub fn clone(&self) -> (r: ArchetypeDescriptor) ensures r == *self { unimplemented!() }
    pub exec const INVALID: ArchetypeDescriptor
        ensures ArchetypeDescriptor::INVALID.len == 0, ArchetypeDescriptor::INVALID.archetype_id.0 == 0xffff_ffff
    { ArchetypeDescriptor { archetype_id: ArchetypeId(0xffff_ffff), len: 0, components: invalid_components() } }
//@fn descriptors/archetype_descriptor.rs | impl ArchetypeDescriptor | new -> r as ArchetypeDescriptor::new
        ensures if len == 0 || archetype_id.0 == 0xffff_ffff { r.len == 0 && !r.valid() } else { r.len == len && r.archetype_id == archetype_id && r.components == components }
//@end

//@fn descriptors/archetype_descriptor.rs | impl ArchetypeDescriptor | is_valid -> r as ArchetypeDescriptor::is_valid
        ensures r == self.valid()
//@end
//@fn descriptors/archetype_descriptor.rs | impl ArchetypeDescriptor | archetype_id -> r as ArchetypeDescriptor::archetype_id
        ensures r == self.archetype_id
//@end
//@fn descriptors/archetype_descriptor.rs | impl ArchetypeDescriptor | len -> r as ArchetypeDescriptor::len
        ensures r == self.len
//@end
//@fn descriptors/archetype_descriptor.rs | impl ArchetypeDescriptor | components_unchecked -> r as ArchetypeDescriptor::components_unchecked
        ensures *r == self.components
//@end
//@fn descriptors/archetype_descriptor.rs | impl ArchetypeDescriptor | components -> r as ArchetypeDescriptor::components
        requires self.len <= 14
        ensures r@ == self.parts()
//@end
//@fn descriptors/archetype_descriptor.rs | impl ArchetypeDescriptor | compute_archetype_id -> r as ArchetypeDescriptor::compute_archetype_id
        requires descriptors.len() <= 14
        ensures r.0 == set_id(ids_of(descriptors@)), r.0 != 0xffff_ffff || descriptors.len() == 0
//@sub `[0; MAX_COMPONENTS_PER_ENTITY * core::mem::size_of::<ComponentTypeId>()]` => `[0u8; 28]`
//@sub `core::mem::size_of::<ComponentTypeId>()` => `2`
//@start
        broadcast use axiom_ne_bytes;
        reveal(set_id);
        let ghost ids = ids_of(descriptors@);
//@loop 1
            invariant descriptors.len() <= 14, i <= descriptors.len(), ids == ids_of(descriptors@),
                forall|k: int| 0 <= k < 28 ==> #[trigger] bytes@[k] == if k < 2 * i { ne_bytes(ids[k / 2])[k % 2] } else { 0u8 },
            decreases descriptors.len() - i
//@loop 2
                invariant descriptors.len() <= 14, i < descriptors.len(), j <= 2, ids == ids_of(descriptors@), byte_block@ == ne_bytes(ids[i as int]),
                    forall|k: int| 0 <= k < 28 ==> #[trigger] bytes@[k] == if k < 2 * i + j { ne_bytes(ids[k / 2])[k % 2] } else { 0u8 },
                decreases 2 - j
//@after 1
        proof { assert(bytes@ =~= id_bytes(ids)); assert(limited(bytes@, Some(28usize)) =~= bytes@); }
//@end
//@fn descriptors/archetype_descriptor.rs | impl ArchetypeDescriptor | contains_subset -> r as ArchetypeDescriptor::contains_subset
        requires self.len <= 14, descriptor.len <= 14, sorted(self.ids()), sorted(descriptor.ids())
        ensures r == descriptor.set().subset_of(self.set())
//@start
        proof {
            self.ids().unique_seq_to_set();
            descriptor.ids().unique_seq_to_set();
            if descriptor.set().subset_of(self.set()) { vstd::set_lib::lemma_len_subset(descriptor.set(), self.set()); }
        }
//@loop 1
            invariant self.len <= 14, descriptor.len <= 14, i <= descriptor.len,
                forall|k: int| 0 <= k < i ==> self.set().contains(#[trigger] descriptor.ids()[k]),
            decreases descriptor.len - i
//@body 1
            let ghost i0 = i;
//@loop 2
                invariant self.len <= 14, descriptor.len <= 14, i < descriptor.len, j <= self.len, i == i0,
                    forall|k: int| 0 <= k < i ==> self.set().contains(#[trigger] descriptor.ids()[k]),
                    forall|k: int| 0 <= k < j ==> #[trigger] self.ids()[k] != descriptor.ids()[i as int],
                decreases self.len - j
//@body 2
                proof { assert(self.ids()[j as int] == self.components@[j as int].id()); assert(descriptor.ids()[i as int] == descriptor.components@[i as int].id()); }
//@after 2
            proof { assert(descriptor.set().contains(descriptor.ids()[i as int])); }
//@attr #[verifier::loop_isolation(false)]
//@end
//@fn descriptors/archetype_descriptor.rs | impl ArchetypeDescriptor | excludes_subset -> r as ArchetypeDescriptor::excludes_subset
        requires self.len <= 14, descriptor.len <= 14
        ensures r == descriptor.set().disjoint(self.set())
//@loop 1
            invariant self.len <= 14, descriptor.len <= 14, i <= descriptor.len,
                forall|k: int| 0 <= k < i ==> !self.set().contains(#[trigger] descriptor.ids()[k]),
            decreases descriptor.len - i
//@loop 2
                invariant self.len <= 14, descriptor.len <= 14, i < descriptor.len, j <= self.len,
                    forall|k: int| 0 <= k < i ==> !self.set().contains(#[trigger] descriptor.ids()[k]),
                    forall|k: int| 0 <= k < j ==> #[trigger] self.ids()[k] != descriptor.ids()[i as int],
                decreases self.len - j
//@body 2
                proof {
                    assert(self.set().contains(self.ids()[j as int])); assert(descriptor.set().contains(descriptor.ids()[i as int]));
                    assert(self.ids()[j as int] == self.components@[j as int].id()); assert(descriptor.ids()[i as int] == descriptor.components@[i as int].id());
                }
//@end
//@fn descriptors/archetype_descriptor.rs | impl ArchetypeDescriptor | add_component -> r as ArchetypeDescriptor::add_component
        requires self.ok()
        ensures
            r is Some <==> self.can_add(component_descriptor.id()),
            r matches Some(d) ==> d.adds(self, *component_descriptor)
//@loop 1
                    invariant self.ok(), self.len < 14, insertion_index <= self.len, v.len == self.len,
                        forall|k: int| 0 <= k < 14 ==> #[trigger] v.components@[k] == self.components@[if insertion_index < k <= i { k - 1 } else { k }],
//@start
        broadcast use lemma_place;
        proof { assert(self.parts().len() == self.len); }
//@end
//@fn descriptors/archetype_descriptor.rs | impl ArchetypeDescriptor | add_component_from -> r as ArchetypeDescriptor::add_component_from
        requires self.ok()
        ensures r is Some <==> self.can_add(C::ID.0), r matches Some(d) ==> d.adds(self, C::DESCRIPTOR)
//@start
        proof { C::own_id(); }
//@end
//@fn descriptors/archetype_descriptor.rs | impl ArchetypeDescriptor | remove_component -> r as ArchetypeDescriptor::remove_component
        requires self.ok()
        ensures
            r is Some <==> self.can_remove(component.0),
            r matches Some(d) ==> d.removes(self, component.0)
//@loop 1
                    invariant self.ok(), self.len > 1, found_index < self.len, v.len == self.len,
                        forall|k: int| 0 <= k < found_index ==> #[trigger] v.components@[k] == self.components@[k],
                        forall|k: int| found_index <= k < i ==> #[trigger] v.components@[k] == self.components@[k + 1],
//@start
        broadcast use lemma_place;
        proof { assert(self.parts().len() == self.len); }
//@end
}

/// Adding yields the union, canonically.
//@lemma
pub proof fn lemma_adds(o: ArchetypeDescriptor, d: ArchetypeDescriptor, c: ComponentDescriptor)
    requires o.ok(), o.len < 14, !o.set().contains(c.id()), d.adds(&o, c), described(c)
    ensures d.ok(), d.set() =~= o.set().insert(c.id())
{
    let p = place_of(o.ids(), c.id());
    lemma_place_exists(o.ids(), c.id());
    assert(place(o.ids(), p, c.id()));
    assert(d.ids() =~= o.ids().insert(p, c.id()));
    let (a, b) = (o.ids(), d.ids());
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies b[i] < b[j] by {
        assert(i < p ==> b[i] == a[i]);
        assert(j > p ==> b[j] == a[j - 1]);
        assert(i > p ==> b[i] == a[i - 1]);
        assert(j < p ==> b[j] == a[j]);
    }
    assert forall|x: u16| d.set().contains(x) == o.set().insert(c.id()).contains(x) by {
        if a.contains(x) {
            let k = a.index_of(x);
            assert(b[if k < p { k } else { k + 1 }] == x);
        }
        if x == c.id() { assert(b[p] == x); }
        if b.contains(x) && x != c.id() {
            let k = b.index_of(x);
            assert(a[if k < p { k } else { k - 1 }] == x);
        }
    }
}
//@lemma
pub proof fn lemma_place_exists(ids: Seq<u16>, x: u16)
    requires sorted(ids), !ids.contains(x)
    ensures exists|k: int| place(ids, k, x)
    decreases ids.len()
{
    if ids.len() == 0 { assert(place(ids, 0, x)); } else {
        let t = ids.drop_last();
        assert forall|y: u16| t.contains(y) implies ids.contains(y) by { assert(ids[t.index_of(y)] == y); }
        assert(ids.last() != x) by { assert(ids.contains(ids.last())); }
        if ids.last() < x {
            assert(place(ids, ids.len() as int, x));
        } else {
            lemma_place_exists(t, x);
            let k = choose|k: int| place(t, k, x);
            assert forall|j: int| 0 <= j < k implies #[trigger] ids[j] < x by { assert(t[j] < x); }
            assert forall|j: int| k <= j < ids.len() implies #[trigger] ids[j] > x by { if j < t.len() { assert(t[j] > x); } }
            assert(place(ids, k, x));
        }
    }
}
/// Removing yields the difference, canonically.
//@lemma
pub proof fn lemma_removes(o: ArchetypeDescriptor, d: ArchetypeDescriptor, x: u16)
    requires o.ok(), o.len > 1, o.set().contains(x), d.removes(&o, x)
    ensures d.ok(), d.set() =~= o.set().remove(x)
{
    let p = o.ids().index_of(x);
    let (a, b) = (o.ids(), d.ids());
    assert(a.contains(x));
    assert(d.ids() =~= a.remove(p));
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies b[i] < b[j] by {
        assert(b[i] == a[if i < p { i } else { i + 1 }]);
        assert(b[j] == a[if j < p { j } else { j + 1 }]);
    }
    assert forall|y: u16| d.set().contains(y) == o.set().remove(x).contains(y) by {
        if a.contains(y) && y != x {
            let k = a.index_of(y);
            assert(b[if k < p { k } else { k - 1 }] == y);
        }
        if b.contains(y) {
            let k = b.index_of(y);
            assert(a[if k < p { k } else { k + 1 }] == y);
            if y == x { assert(a[p] == x); }
        }
    }
}
//@lemma
pub broadcast proof fn lemma_adding(o: &ArchetypeDescriptor, d: &ArchetypeDescriptor, c: ComponentDescriptor)
    requires o.ok(), o.can_add(c.id()), #[trigger] d.adds(o, c), described(c)
    ensures d.ok(), d.valid(), d.ids() == o.ids_adding(c.id()), d.ids() != o.ids(), d.len == o.len + 1, d.set() == o.set().insert(c.id())
{
    lemma_adds(*o, *d, c);
    lemma_place_exists(o.ids(), c.id());
    assert(d.ids() =~= o.ids_adding(c.id()));
    assert(d.ids().len() == o.ids().len() + 1);
    reveal(set_id);
}
//@lemma
pub broadcast proof fn lemma_removing(o: &ArchetypeDescriptor, d: &ArchetypeDescriptor, x: u16)
    requires o.ok(), o.can_remove(x), #[trigger] d.removes(o, x)
    ensures d.ok(), d.valid(), d.ids() == o.ids_removing(x), d.ids() != o.ids(), d.len == o.len - 1, d.set() == o.set().remove(x)
{
    lemma_removes(*o, *d, x);
    assert(o.ids().contains(x));
    assert(d.ids() =~= o.ids_removing(x));
    assert(d.ids().len() == o.ids().len() - 1);
    reveal(set_id);
}
/// Canonical descriptions of the same set are the same list of types, with the same identifier and size.
//@lemma
pub proof fn lemma_canonical(a: Seq<u16>, b: Seq<u16>)
    requires sorted(a), sorted(b), a.to_set() =~= b.to_set()
    ensures a =~= b
    decreases a.len()
{
    assert(forall|x: u16| a.contains(x) == a.to_set().contains(x));
    assert(forall|x: u16| b.contains(x) == b.to_set().contains(x));
    if a.len() == 0 {
        if b.len() > 0 { assert(b.contains(b[0])); assert(a.to_set().contains(b[0])); }
    } else {
        assert(a.contains(a.last()));
        assert(b.contains(a.last()));
        assert(b.contains(b.last()));
        assert(a.contains(b.last()));
        let i = b.index_of(a.last());
        let j = a.index_of(b.last());
        assert(a.last() == b.last()) by {
            if i < b.len() - 1 { assert(b[i] < b[b.len() - 1]); }
            if j < a.len() - 1 { assert(a[j] < a[a.len() - 1]); }
        }
        let (c, d) = (a.drop_last(), b.drop_last());
        assert forall|x: u16| c.to_set().contains(x) == d.to_set().contains(x) by {
            if c.contains(x) {
                let k = c.index_of(x);
                assert(a[k] == x);
                assert(a[k] < a.last());
                assert(b.contains(x));
                let m = b.index_of(x);
                assert(d[m] == x);
            }
            if d.contains(x) {
                let k = d.index_of(x);
                assert(b[k] == x);
                assert(b[k] < b.last());
                assert(a.contains(x));
                let m = a.index_of(x);
                assert(c[m] == x);
            }
        }
        lemma_canonical(c, d);
        assert(a =~= c.push(a.last()));
        assert(b =~= d.push(b.last()));
    }
}

// ---------------------------------------------------------------------------------------------------------------------
// Memory. Raw pointers are Ptr (a block and an offset in bytes), the memory an archetype owns is its ghost field `mem`.
// The contracts of this section are those of the pointer, allocation and slice functions of std.

global size_of usize == 8;
global layout Entity is size == 4, align == 4;

/// The bytes of a value.
pub uninterp spec fn raw<T>(x: T) -> Bits;
pub uninterp spec fn unraw<T>(b: Bits) -> T;
pub broadcast axiom fn axiom_raw<T>(x: T)
    ensures #[trigger] raw(x).len() == vstd::layout::size_of::<T>(), unraw::<T>(raw(x)) == x;
/// The bytes are those of some value of the type.
pub open spec fn sound<T>(b: Bits) -> bool { exists|x: T| raw(x) == b }
/// Any four bytes are an entity.
pub broadcast axiom fn axiom_entity(b: Bits)
    requires b.len() == 4
    ensures #[trigger] raw(unraw::<Entity>(b)) == b;

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Ptr<T> { p: *mut T }
impl<T> Clone for Ptr<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<T> Copy for Ptr<T> {}
impl<T> Ptr<T> {
    /// Negative: not from the allocator.
    pub uninterp spec fn block(&self) -> int;
    pub uninterp spec fn off(&self) -> int;
    /// The pointer as one to bytes.
    pub uninterp spec fn untyped(&self) -> Ptr<u8>;
    pub open spec fn null(&self) -> bool { self.block() < 0 && self.off() == 0 }
    pub open spec fn dangles(&self, align: int) -> bool { self.block() < 0 && self.off() == align }
    #[verifier::external_body]
    pub unsafe fn offset(self, n: isize) -> (r: Ptr<T>)
        requires -0x7fff_ffff_ffff_ffff <= n * vstd::layout::size_of::<T>() <= 0x7fff_ffff_ffff_ffff,
            self.block() < 0 ==> n * vstd::layout::size_of::<T>() == 0
        ensures r.block() == self.block(), r.off() == self.off() + n * vstd::layout::size_of::<T>()
    { unimplemented!() }
    /// `as *mut U`
    #[verifier::external_body]
    pub fn cast<U>(self) -> (r: Ptr<U>)
        ensures r.block() == self.block(), r.off() == self.off()
    { unimplemented!() }
    /// `!= core::ptr::null_mut()`
    #[verifier::external_body]
    pub fn non_null(&self) -> (r: bool) ensures r == !self.null() { unimplemented!() }
}
pub broadcast axiom fn axiom_untyped<T>(p: Ptr<T>)
    ensures (#[trigger] p.untyped()).block() == p.block(), p.untyped().off() == p.off();
/// `align as *mut T`, NonNull::dangling()
#[verifier::external_body]
pub fn dangling<T>(align: usize) -> (r: Ptr<T>) ensures r.dangles(align as int) { unimplemented!() }
/// `[core::ptr::null_mut(); MAX_COMPONENTS_PER_ENTITY]`
#[verifier::external_body]
pub fn no_pointers() -> (r: [Ptr<u8>; 14]) ensures forall|i: int| 0 <= i < 14 ==> (#[trigger] r@[i]).null() { unimplemented!() }
/// An element of an array, to be assigned.
#[verifier::external_body]
pub fn slot_mut<T, const N: usize>(a: &mut [T; N], i: usize) -> (r: &mut T)
    requires i < N
    ensures *r == old(a)@[i as int], final(a)@ == old(a)@.update(i as int, *final(r))
{ &mut a[i] }

#[derive(Copy, Clone)]
pub struct Layout { pub size: usize, pub align: usize }
impl Layout {
    pub unsafe fn from_size_align_unchecked(size: usize, align: usize) -> (r: Layout)
        requires align_ok(align as int), size + align <= 0x8000_0000_0000_0000
        ensures r.size == size, r.align == align
    { Layout { size, align } }
    pub fn size(&self) -> (r: usize) ensures r == self.size { self.size }
    pub fn align(&self) -> (r: usize) ensures r == self.align { self.align }
}

pub ghost struct Block { pub bytes: Bits, pub align: int }
pub open spec fn spliced(s: Bits, off: int, v: Bits) -> Bits { Seq::new(s.len(), |i: int| if off <= i < off + v.len() { v[i - off] } else { s[i] }) }

/// The blocks from the allocator that are not given back, and the component values whose destructors ran, by type.
pub ghost struct Heap { pub blocks: Map<int, Block>, pub gone: Map<u16, Seq<Bits>> }
impl Heap {
    pub open spec fn has(&self, b: int, off: int, n: int) -> bool {
        n == 0 || n > 0 && self.blocks.contains_key(b) && 0 <= off && off + n <= self.blocks[b].bytes.len()
    }
    pub open spec fn at(&self, b: int, off: int, n: int) -> Bits {
        if n <= 0 { Seq::empty() } else { self.blocks[b].bytes.subrange(off, off + n) }
    }
    pub open spec fn aligned(&self, b: int, off: int, align: int) -> bool {
        if b < 0 { off > 0 && off % align == 0 } else { self.blocks.contains_key(b) && self.blocks[b].align % align == 0 && off % align == 0 }
    }
    /// The bytes v written.
    pub open spec fn with(&self, b: int, off: int, v: Bits) -> Heap {
        if v.len() == 0 { *self } else { Heap { blocks: self.blocks.insert(b, Block { bytes: spliced(self.blocks[b].bytes, off, v), align: self.blocks[b].align }), ..*self } }
    }
    pub open spec fn value_at<T>(&self, p: Ptr<T>) -> Bits { self.at(p.block(), p.off(), vstd::layout::size_of::<T>() as int) }
    pub open spec fn valid<T>(&self, p: Ptr<T>) -> bool {
        &&& self.has(p.block(), p.off(), vstd::layout::size_of::<T>() as int)
        &&& self.aligned(p.block(), p.off(), vstd::layout::align_of::<T>() as int)
        &&& sound::<T>(self.value_at(p))
    }
    /// n values of the described type, one after the other.
    pub open spec fn values(&self, d: ComponentDescriptor, b: int, off: int, n: int) -> Seq<Bits> { Seq::new(n as nat, |k: int| self.at(b, off + k * d.size, d.size as int)) }
}

/// The bytes of a slice.
pub open spec fn of_handles(v: Bits, hs: Seq<Entity>) -> bool {
    v.len() == 4 * hs.len() && forall|i: int| 0 <= i < hs.len() ==> #[trigger] raw(hs[i]) == v.subrange(4 * i, 4 * i + 4)
}

/// No destructor ran.
pub open spec fn nothing_gone(g: Map<u16, Seq<Bits>>) -> bool { forall|id: u16| #[trigger] g.contains_key(id) && g[id].len() == 0 }
/// Memory.
#[verifier::external_body]
pub struct Mem { p: usize }
impl View for Mem {
    type V = Heap;
    uninterp spec fn view(&self) -> Heap;
}
impl Mem {
    #[verifier::external_body]
    pub fn none() -> (r: Mem)
        ensures r@.blocks == Map::<int, Block>::empty(), nothing_gone(r@.gone)
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn alloc(&mut self, layout: Layout) -> (r: Ptr<u8>)
        requires layout.size > 0
        ensures r.off() == 0, r.block() >= 0, !old(self)@.blocks.contains_key(r.block()), final(self)@.gone == old(self)@.gone,
            exists|v: Bits| v.len() == layout.size && #[trigger] old(self)@.blocks.insert(r.block(), Block { bytes: v, align: layout.align as int }) == final(self)@.blocks,
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn realloc(&mut self, p: Ptr<u8>, layout: Layout, size: usize) -> (r: Ptr<u8>)
        requires layout.size > 0, size > 0, size + layout.align <= 0x8000_0000_0000_0000, p.off() == 0, p.block() >= 0, old(self)@.blocks.contains_key(p.block()),
            old(self)@.blocks[p.block()].bytes.len() == layout.size, old(self)@.blocks[p.block()].align == layout.align
        ensures r.off() == 0, r.block() >= 0, r.block() == p.block() || !old(self)@.blocks.contains_key(r.block()), final(self)@.gone == old(self)@.gone,
            exists|v: Bits| v.len() == size && (forall|i: int| 0 <= i < size && i < layout.size ==> #[trigger] v[i] == old(self)@.blocks[p.block()].bytes[i])
                && #[trigger] old(self)@.blocks.remove(p.block()).insert(r.block(), Block { bytes: v, align: layout.align as int }) == final(self)@.blocks,
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn dealloc(&mut self, p: Ptr<u8>, layout: Layout)
        requires p.off() == 0, p.block() >= 0, old(self)@.blocks.contains_key(p.block()),
            old(self)@.blocks[p.block()].bytes.len() == layout.size, old(self)@.blocks[p.block()].align == layout.align
        ensures final(self)@.gone == old(self)@.gone, final(self)@.blocks == old(self)@.blocks.remove(p.block()),
    { unimplemented!() }
    /// core::ptr::copy_nonoverlapping, from memory of another owner
    #[verifier::external_body]
    pub unsafe fn copy_from(&mut self, from: &Mem, src: Ptr<u8>, dst: Ptr<u8>, n: usize)
        requires from@.has(src.block(), src.off(), n as int), old(self)@.has(dst.block(), dst.off(), n as int)
        ensures final(self)@ == old(self)@.with(dst.block(), dst.off(), from@.at(src.block(), src.off(), n as int))
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn swap_nonoverlapping(&mut self, a: Ptr<u8>, b: Ptr<u8>, n: usize)
        requires old(self)@.has(a.block(), a.off(), n as int), old(self)@.has(b.block(), b.off(), n as int),
            n == 0 || a.block() != b.block() || a.off() + n <= b.off() || b.off() + n <= a.off()
        ensures final(self)@ == old(self)@.with(a.block(), a.off(), old(self)@.at(b.block(), b.off(), n as int))
            .with(b.block(), b.off(), old(self)@.at(a.block(), a.off(), n as int))
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn write<T>(&mut self, p: Ptr<T>, x: T)
        requires old(self)@.has(p.block(), p.off(), vstd::layout::size_of::<T>() as int), old(self)@.aligned(p.block(), p.off(), vstd::layout::align_of::<T>() as int)
        ensures final(self)@ == old(self)@.with(p.block(), p.off(), raw(x))
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn read<T>(&self, p: Ptr<T>) -> (r: T)
        requires self@.valid(p)
        ensures raw(r) == self@.value_at(p)
    { unimplemented!() }
    /// `&*p`
    #[verifier::external_body]
    pub unsafe fn get<T>(&self, p: Ptr<T>) -> (r: &T)
        requires self@.valid(p)
        ensures raw(*r) == self@.value_at(p)
    { unimplemented!() }
    /// `&mut *p`
    #[verifier::external_body]
    pub unsafe fn get_mut<T>(&mut self, p: Ptr<T>) -> (r: &mut T)
        requires old(self)@.valid(p)
        ensures raw(*r) == old(self)@.value_at(p), final(self)@ == old(self)@.with(p.block(), p.off(), raw(*final(r)))
    { unimplemented!() }
    /// `&*slice_from_raw_parts(p, n)`, of entities
    #[verifier::external_body]
    pub unsafe fn slice(&self, p: Ptr<Entity>, n: usize) -> (r: &[Entity])
        requires self@.has(p.block(), p.off(), 4 * n), self@.aligned(p.block(), p.off(), 4)
        ensures r@.len() == n, forall|i: int| 0 <= i < n ==> raw(#[trigger] r@[i]) == self@.at(p.block(), p.off() + 4 * i, 4)
    { unimplemented!() }
    /// `&mut *slice_from_raw_parts_mut(p, n)`, of entities
    #[verifier::external_body]
    pub unsafe fn slice_mut(&mut self, p: Ptr<Entity>, n: usize) -> (r: &mut [Entity])
        requires old(self)@.has(p.block(), p.off(), 4 * n), old(self)@.aligned(p.block(), p.off(), 4)
        ensures r@.len() == n, forall|i: int| 0 <= i < n ==> raw(#[trigger] r@[i]) == old(self)@.at(p.block(), p.off() + 4 * i, 4),
            final(r)@.len() == n,
            exists|v: Bits| #[trigger] of_handles(v, final(r)@) && final(self)@ == old(self)@.with(p.block(), p.off(), v),
    { unimplemented!() }
    /// ManuallyDrop::drop
    #[verifier::external_body]
    pub unsafe fn drop_value<C: Component>(&mut self, p: Ptr<C>)
        requires old(self)@.valid(p), old(self)@.gone.contains_key(C::ID.0)
        ensures exists|v: Bits| v.len() == vstd::layout::size_of::<C>() && final(self)@.blocks == (#[trigger] old(self)@.with(p.block(), p.off(), v)).blocks,
            final(self)@.gone == old(self)@.gone.insert(C::ID.0, old(self)@.gone[C::ID.0].push(old(self)@.value_at(p))),
    { unimplemented!() }
    /// The call of a function pointer, which for a described type is `drop_handler_wrapper` of that type (its contract is proved, and is this):
    /// `(d.fns.drop_handler)(p, n)` destroys n values.
    #[verifier::external_body]
    pub unsafe fn run_drop(&mut self, d: &ComponentDescriptor, p: Ptr<u8>, n: usize)
        requires described(*d), old(self)@.has(p.block(), p.off(), n * d.size), old(self)@.aligned(p.block(), p.off(), d.align as int),
            old(self)@.gone.contains_key(d.id()),
            forall|k: int| 0 <= k < n ==> valid_bits(d.id(), #[trigger] old(self)@.values(*d, p.block(), p.off(), n as int)[k]),
        ensures exists|v: Bits| v.len() == n * d.size && final(self)@.blocks == (#[trigger] old(self)@.with(p.block(), p.off(), v)).blocks,
            final(self)@.gone == old(self)@.gone.insert(d.id(), old(self)@.gone[d.id()] + old(self)@.values(*d, p.block(), p.off(), n as int)),
    { unimplemented!() }
}

pub assume_specification<T> [<[T]>::swap] (s: &mut [T], i: usize, j: usize)
    requires i < old(s)@.len(), j < old(s)@.len()
    ensures final(s)@ == old(s)@.update(i as int, old(s)@[j as int]).update(j as int, old(s)@[i as int]);

// ---------------------------------------------------------------------------------------------------------------------
// Components and groups.

/// `ComponentDescriptor::drop_handler_wrapper::<C>`
pub uninterp spec fn handler_of<C>() -> usize;
#[verifier::external_body]
pub fn drop_handler_of<C>() -> (r: usize) ensures r == handler_of::<C>() { unimplemented!() }
pub open spec fn desc_of<C>(id: ComponentTypeId) -> ComponentDescriptor {
    ComponentDescriptor { component_type_id: id, size: vstd::layout::size_of::<C>() as u16, align: vstd::layout::align_of::<C>() as u16,
        fns: ComponentDescriptorFnPointers { drop_handler: handler_of::<C>() } }
}
pub trait Component: Sized {
    const NAME: &'static str;
    const ID: ComponentTypeId;
    const DESCRIPTOR: ComponentDescriptor;
    spec fn bits(&self) -> Bits;
    /// Sizes and alignments fit, distinct types have distinct identifiers, and the constants are not overridden.
    proof fn own_id()
        ensures Self::DESCRIPTOR == desc_of::<Self>(Self::ID), described(Self::DESCRIPTOR),
            Self::DESCRIPTOR.component_type_id == Self::ID,
            Self::DESCRIPTOR.size == vstd::layout::size_of::<Self>(), Self::DESCRIPTOR.align == vstd::layout::align_of::<Self>(),
            forall|b: Bits| #[trigger] valid_bits(Self::ID.0, b) == sound::<Self>(b),
            forall|c: Self| #[trigger] c.bits() == raw(c);
}
//@fn descriptors/component.rs | const | ID -> r as Component::ID
//@sub `fn const_ID()` => `fn component_id<C: Component>()`
//@sub `Self::NAME` => `C::NAME`
    ensures r.0 == folded(fnv32(utf8(C::NAME)))
//@end
//@fn descriptors/component.rs | const | DESCRIPTOR -> r as Component::DESCRIPTOR
//@sub `fn const_DESCRIPTOR()` => `fn component_descriptor<C: Component>()`
//@sub `define_component_descriptor!(Self)` => `define_component_descriptor!(C)`
    ensures r == desc_of::<C>(C::ID)
//@end

/// `&mut [T]`: n values in memory.
pub struct Run<T> { pub p: Ptr<T>, pub n: usize }
impl<T> Run<T> {
    /// core::slice::from_raw_parts_mut
    pub unsafe fn over(mem: &Mem, p: Ptr<T>, n: usize) -> (r: Run<T>)
        requires mem@.has(p.block(), p.off(), n * vstd::layout::size_of::<T>()), mem@.aligned(p.block(), p.off(), vstd::layout::align_of::<T>() as int)
        ensures r.p == p, r.n == n
    { Run { p, n } }
    pub fn len(&self) -> (r: usize) ensures r == self.n { self.n }
    /// The address of the i-th value.
    #[verifier::external_body]
    pub fn nth(&self, i: usize) -> (r: Ptr<T>)
        requires i < self.n
        ensures r.block() == self.p.block(), r.off() == self.p.off() + i * vstd::layout::size_of::<T>()
    { unimplemented!() }
}
/// Blocks with n values of size z written over from a position on are those with one more, when the next is written over.
//@lemma
pub proof fn lemma_written_on(h: Heap, t: Heap, u: Heap, b: int, off: int, k: int, z: int, v: Bits, w: Bits)
    requires 0 <= k, 0 <= z, v.len() == k * z, w.len() == z, h.has(b, off, (k + 1) * z), t.blocks == h.with(b, off, v).blocks, u.blocks == t.with(b, off + k * z, w).blocks
    ensures u.blocks == h.with(b, off, v + w).blocks, (v + w).len() == (k + 1) * z, t.at(b, off + k * z, z) == h.at(b, off + k * z, z)
{
    assert((k + 1) * z == k * z + z) by (nonlinear_arith);
    if z > 0 {
        if k > 0 { assert(k * z > 0) by (nonlinear_arith) requires k > 0, z > 0; }
        assert(t.at(b, off + k * z, z) =~= h.at(b, off + k * z, z));
        assert(u.blocks[b].bytes =~= h.with(b, off, v + w).blocks[b].bytes);
        assert(u.blocks =~= h.with(b, off, v + w).blocks);
    } else {
        assert(k * z == 0) by (nonlinear_arith) requires z == 0;
        assert(v + w =~= v);
    }
}
//@fn descriptors/component_descriptor.rs | impl ComponentDescriptor | drop_handler_wrapper as ComponentDescriptor::drop_handler_wrapper
//@sub `ptr: *mut u8` => `mem: &mut Mem, ptr: Ptr<u8>`
//@sub `ManuallyDrop<C>` => `C`
//@call `core::slice::from_raw_parts_mut` => `Run::<C>::over(mem, `
//@call `ManuallyDrop::drop` => `mem.drop_value::<C>(`
//@cast
    requires old(mem)@.has(ptr.block(), ptr.off(), len * C::DESCRIPTOR.size), old(mem)@.aligned(ptr.block(), ptr.off(), C::DESCRIPTOR.align as int),
        old(mem)@.gone.contains_key(C::ID.0),
        forall|k: int| 0 <= k < len ==> valid_bits(C::ID.0, #[trigger] old(mem)@.values(C::DESCRIPTOR, ptr.block(), ptr.off(), len as int)[k]),
    ensures exists|v: Bits| v.len() == len * C::DESCRIPTOR.size && final(mem)@.blocks == (#[trigger] old(mem)@.with(ptr.block(), ptr.off(), v)).blocks,
        final(mem)@.gone == old(mem)@.gone.insert(C::ID.0, old(mem)@.gone[C::ID.0] + old(mem)@.values(C::DESCRIPTOR, ptr.block(), ptr.off(), len as int)),
//@start
    let ghost h = mem@;
    let ghost (b, off, z, d) = (ptr.block(), ptr.off(), C::DESCRIPTOR.size as int, C::DESCRIPTOR);
    let ghost mut v: Bits = Seq::empty();
    proof {
        C::own_id();
        assert(h.with(b, off, v) == h);
        assert(h.values(d, b, off, 0) =~= Seq::empty());
        assert(h.gone.insert(d.id(), h.gone[d.id()] + h.values(d, b, off, 0)) =~= h.gone);
        assert(v.len() == 0 * z);
    }
//@loop 1
        invariant i_1 <= n_1, n_1 == len, it_1.n == len, it_1.p.block() == b, it_1.p.off() == off, h == old(mem)@,
            h.has(b, off, len * z), h.aligned(b, off, d.align as int), h.gone.contains_key(d.id()), z == d.size, d == C::DESCRIPTOR,
            forall|k: int| 0 <= k < len ==> valid_bits(C::ID.0, #[trigger] h.values(d, b, off, len as int)[k]),
            v.len() == i_1 * z, mem@.blocks == h.with(b, off, v).blocks,
            mem@.gone == h.gone.insert(d.id(), h.gone[d.id()] + h.values(d, b, off, i_1 as int)),
        decreases n_1 - i_1
//@body 1
        let ghost (t, k) = (mem@, i_1 - 1);
        proof {
            C::own_id();
            assert(valid_bits(C::ID.0, h.values(d, b, off, len as int)[k]));
            lemma_reaches(h, t, b, off, k, len as int, z, v, d.align as int);
        }
//@last 1
        proof {
            let w = choose|w: Bits| w.len() == z && mem@.blocks == (#[trigger] t.with(b, off + k * z, w)).blocks;
            lemma_written_on(h, t, mem@, b, off, k, z, v, w);
            v = v + w;
            assert(h.values(d, b, off, k + 1) =~= h.values(d, b, off, k).push(h.at(b, off + k * z, z)));
            assert(h.gone[d.id()] + h.values(d, b, off, k + 1) =~= (h.gone[d.id()] + h.values(d, b, off, k)).push(h.at(b, off + k * z, z)));
            assert(mem@.gone =~= h.gone.insert(d.id(), h.gone[d.id()] + h.values(d, b, off, k + 1)));
        }
//@end
/// The k-th value is there, aligned and as before.
//@lemma
pub proof fn lemma_reaches(h: Heap, t: Heap, b: int, off: int, k: int, n: int, z: int, v: Bits, a: int)
    requires 0 <= k < n, 0 <= z, a > 0, z % a == 0, v.len() == k * z, h.has(b, off, n * z), h.aligned(b, off, a), t.blocks == h.with(b, off, v).blocks
    ensures t.has(b, off + k * z, z), t.aligned(b, off + k * z, a), t.at(b, off + k * z, z) == h.at(b, off + k * z, z), h.has(b, off, (k + 1) * z)
{
    assert((k + 1) * z == k * z + z) by (nonlinear_arith);
    assert((k + 1) * z <= n * z) by (nonlinear_arith) requires k + 1 <= n, z >= 0;
    assert(k * z >= 0) by (nonlinear_arith) requires k >= 0, z >= 0;
    assert((k * z) % a == 0) by { vstd::arithmetic::div_mod::lemma_mul_mod_noop_right(k, z, a); assert(k * 0 == 0); };
    assert((off + k * z) % a == 0) by { vstd::arithmetic::div_mod::lemma_add_mod_noop(off, k * z, a); assert(0int % a == 0) by (nonlinear_arith) requires a > 0; };
    if z > 0 {
        if k > 0 { assert(k * z > 0) by (nonlinear_arith) requires k > 0, z > 0; }
        assert(t.at(b, off + k * z, z) =~= h.at(b, off + k * z, z));
    } else { assert(k * z == 0) by (nonlinear_arith) requires z == 0; }
}

/// [ComponentDescriptor::INVALID; 14]
#[verifier::external_body]
pub const fn invalid_components() -> (r: [ComponentDescriptor; 14]) ensures forall|i: int| 0 <= i < 14 ==> #[trigger] r@[i] == ComponentDescriptor::INVALID { [ComponentDescriptor::INVALID; 14] }
/// Between 1 and 14 types, no two with the same identifier.
pub open spec fn group_of(types: Seq<ComponentDescriptor>) -> bool {
    1 <= types.len() <= 14 && forall|i: int, j: int| 0 <= i < j < types.len() ==> (#[trigger] types[i]).id() != (#[trigger] types[j]).id()
}
//@lemma
pub proof fn lemma_exchanged(s: Seq<ComponentDescriptor>, t: Seq<ComponentDescriptor>, i: int, j: int)
    requires group_of(s), 0 <= i < j < s.len(), t =~= s.update(i, s[j]).update(j, s[i])
    ensures group_of(t), t.to_set() =~= s.to_set()
{
    assert forall|x: ComponentDescriptor| t.to_set().contains(x) == s.to_set().contains(x) by {
        if t.contains(x) { let k = t.index_of(x); assert(s[if k == i { j } else if k == j { i } else { k }] == x); }
        if s.contains(x) { let k = s.index_of(x); assert(t[if k == i { j } else if k == j { i } else { k }] == x); }
    }
}
/// Types with equal identifiers are the same.
//@lemma
pub proof fn lemma_same_parts(a: Seq<ComponentDescriptor>, b: Seq<ComponentDescriptor>, i: int, j: int)
    requires group_of(a), a.to_set() =~= b.to_set(), 0 <= i < a.len(), 0 <= j < b.len()
    ensures a[i].id() == b[j].id() <==> a[i] == b[j]
{
    assert(b.to_set().contains(b[j]));
    let k = a.index_of(b[j]);
    assert(a[k] == b[j]);
}
/// With described types, the archetype of a group is canonical.
//@lemma
pub proof fn lemma_group(g: ComponentGroupDescriptor, types: Seq<ComponentDescriptor>)
    requires g.describes(types), group_of(types), forall|i: int| 0 <= i < types.len() ==> described(#[trigger] types[i])
    ensures g.archetype.ok(), forall|i: int| 0 <= i < types.len() ==> g.set().contains((#[trigger] types[i]).id())
{
    let p = g.archetype.parts();
    assert forall|c: int| 0 <= c < g.archetype.len implies described(#[trigger] p[c]) by { assert(types.to_set().contains(p[c])); let k = types.index_of(p[c]); assert(types[k] == p[c]); }
    assert forall|i: int| 0 <= i < types.len() implies g.set().contains((#[trigger] types[i]).id()) by {
        assert(p.to_set().contains(types[i])); let k = p.index_of(types[i]); assert(g.archetype.ids()[k] == types[i].id());
    }
}
//@struct descriptors/component_group_descriptor.rs ComponentGroupDescriptor
impl ComponentGroupDescriptor {
    pub open spec fn valid(&self) -> bool { self.archetype.valid() }
    pub open spec fn set(&self) -> Set<u16> { self.archetype.set() }
//@fn descriptors/component_group_descriptor.rs | impl ComponentGroupDescriptor | is_valid -> r as ComponentGroupDescriptor::is_valid
        ensures r == self.valid()
//@end
//@fn descriptors/component_group_descriptor.rs | impl ComponentGroupDescriptor | archetype -> r as ComponentGroupDescriptor::archetype
        ensures *r == self.archetype
//@end
//@fn descriptors/component_group_descriptor.rs | impl ComponentGroupDescriptor | len -> r as ComponentGroupDescriptor::len
        ensures r == self.archetype.len
//@end
//@fn descriptors/component_group_descriptor.rs | impl ComponentGroupDescriptor | sorted_to_unsorted -> r as ComponentGroupDescriptor::sorted_to_unsorted
        requires index < 14
        ensures r == self.sorted_to_unsorted@[index as int]
//@end
//@fn descriptors/component_group_descriptor.rs | impl ComponentGroupDescriptor | unsorted_to_sorted -> r as ComponentGroupDescriptor::unsorted_to_sorted
        requires index < 14
        ensures r == self.unsorted_to_sorted@[index as int]
//@end
//@fn descriptors/component_group_descriptor.rs | impl ComponentGroupDescriptor | as_unsorted -> r as ComponentGroupDescriptor::as_unsorted
        requires sorted_index < 14, self.sorted_to_unsorted@[sorted_index as int] < 14
        ensures *r == self.archetype.components@[self.sorted_to_unsorted@[sorted_index as int] as int]
//@end
    pub exec const INVALID: ComponentGroupDescriptor
        ensures !ComponentGroupDescriptor::INVALID.valid()
    { ComponentGroupDescriptor { archetype: ArchetypeDescriptor::INVALID, sorted_to_unsorted: [0; 14], unsorted_to_sorted: [0; 14] } }
    /// The descriptor of these types: the same ones, in order, and how to get from one order to the other.
    pub open spec fn describes(&self, types: Seq<ComponentDescriptor>) -> bool {
        &&& self.archetype.len == types.len() && sorted(self.archetype.ids()) && self.archetype.archetype_id.0 == set_id(self.archetype.ids())
        &&& self.archetype.parts().to_set() =~= types.to_set()
        &&& forall|i: int| 0 <= i < types.len() ==> (#[trigger] self.unsorted_to_sorted@[i]) < types.len() && self.archetype.parts()[self.unsorted_to_sorted@[i] as int] == types[i]
        &&& forall|i: int| 0 <= i < types.len() ==> (#[trigger] self.sorted_to_unsorted@[i]) < types.len() && types[self.sorted_to_unsorted@[i] as int] == self.archetype.parts()[i]
    }
//@fn descriptors/component_group_descriptor.rs | impl ComponentGroupDescriptor | new -> r as ComponentGroupDescriptor::new
        ensures r.valid() == group_of(descriptors@), r.valid() ==> r.describes(descriptors@)
//@end
//@fn descriptors/component_group_descriptor.rs | impl ComponentGroupDescriptor | validate_component_descriptors -> r as ComponentGroupDescriptor::validate_component_descriptors
        ensures r == group_of(descriptors@)
//@loop 1
            invariant 1 <= N <= 14, idx <= N, forall|i: int, j: int| 0 <= i < idx && i < j < N ==> #[trigger] descriptors@[i].id() != #[trigger] descriptors@[j].id()
            decreases N - idx
//@loop 2
                invariant 1 <= N <= 14, idx < cdx <= N, forall|i: int, j: int| 0 <= i < idx && i < j < N ==> #[trigger] descriptors@[i].id() != #[trigger] descriptors@[j].id(),
                    forall|j: int| idx < j < cdx ==> descriptors@[idx as int].id() != #[trigger] descriptors@[j].id()
                decreases N - cdx
//@end
//@fn descriptors/component_group_descriptor.rs | impl ComponentGroupDescriptor | compute_sorted_descriptors -> r as ComponentGroupDescriptor::compute_sorted_descriptors
//@sub `[ComponentDescriptor::INVALID; MAX_COMPONENTS_PER_ENTITY]` => `invalid_components()`
        requires group_of(descriptors@)
        ensures r@.take(N as int).to_set() =~= descriptors@.to_set(), sorted(ids_of(r@.take(N as int)))
//@loop 1
            invariant 1 <= N <= 14, i <= N, forall|k: int| 0 <= k < i ==> #[trigger] return_value@[k] == descriptors@[k]
            decreases N - i
//@after 1
        proof { assert(return_value@.take(N as int) =~= descriptors@); }
//@loop 2
            invariant 1 <= N <= 14, i <= N, group_of(return_value@.take(N as int)), return_value@.take(N as int).to_set() =~= descriptors@.to_set(),
                forall|k: int, l: int| 0 <= k < i && k < l < N ==> (#[trigger] return_value@[k]).id() < (#[trigger] return_value@[l]).id()
            decreases N - i
//@loop 3
                invariant 1 <= N <= 14, i < j <= N, group_of(return_value@.take(N as int)), return_value@.take(N as int).to_set() =~= descriptors@.to_set(),
                    forall|k: int, l: int| 0 <= k < i && k < l < N ==> (#[trigger] return_value@[k]).id() < (#[trigger] return_value@[l]).id(),
                    forall|l: int| i < l < j ==> return_value@[i as int].id() < (#[trigger] return_value@[l]).id()
                decreases N - j
//@body 3
                let ghost s = return_value@.take(N as int);
                proof { assert(s[i as int].id() != s[j as int].id()); assert(forall|l: int| 0 <= l < N ==> #[trigger] s[l] == return_value@[l]); }
//@last 3
                proof { if return_value@.take(N as int) != s { lemma_exchanged(s, return_value@.take(N as int), i as int, j - 1); } }
//@end
//@fn descriptors/component_group_descriptor.rs | impl ComponentGroupDescriptor | compute_sort_mappings -> r as ComponentGroupDescriptor::compute_sort_mappings
        requires group_of(unsorted@), ascending(ids_of(sorted@.take(N as int))), sorted@.take(N as int).to_set() =~= unsorted@.to_set()
        ensures forall|i: int| 0 <= i < N ==> (#[trigger] r.0@[i]) < N && sorted@[r.0@[i] as int] == unsorted@[i],
            forall|i: int| 0 <= i < N ==> (#[trigger] r.1@[i]) < N && unsorted@[r.1@[i] as int] == sorted@[i],
//@loop 1
            invariant 1 <= N <= 14, i <= N,
                forall|k: int| 0 <= k < i ==> (#[trigger] unsorted_to_sorted@[k]) < N && sorted@[unsorted_to_sorted@[k] as int] == unsorted@[k],
                forall|k: int| 0 <= k < i ==> (#[trigger] sorted_to_unsorted@[k]) < N && unsorted@[sorted_to_unsorted@[k] as int] == sorted@[k],
            decreases N - i
//@loop 2
                invariant 1 <= N <= 14, i < N, j <= N,
                    forall|k: int| 0 <= k < i ==> (#[trigger] unsorted_to_sorted@[k]) < N && sorted@[unsorted_to_sorted@[k] as int] == unsorted@[k],
                    forall|k: int| 0 <= k < i ==> (#[trigger] sorted_to_unsorted@[k]) < N && unsorted@[sorted_to_unsorted@[k] as int] == sorted@[k],
                    (exists|k: int| 0 <= k < j && #[trigger] sorted@[k] == unsorted@[i as int]) ==> unsorted_to_sorted@[i as int] < N && sorted@[unsorted_to_sorted@[i as int] as int] == unsorted@[i as int],
                    (exists|k: int| 0 <= k < j && #[trigger] unsorted@[k] == sorted@[i as int]) ==> sorted_to_unsorted@[i as int] < N && unsorted@[sorted_to_unsorted@[i as int] as int] == sorted@[i as int],
                decreases N - j
//@body 2
                proof { lemma_same_parts(unsorted@, sorted@.take(N as int), i as int, j as int); lemma_same_parts(unsorted@, sorted@.take(N as int), j as int, i as int); }
//@after 2
            proof {
                assert(sorted@.take(N as int).to_set().contains(unsorted@[i as int]));
                let k = sorted@.take(N as int).index_of(unsorted@[i as int]);
                assert(sorted@.take(N as int)[k] == sorted@[k]);
                assert(unsorted@.to_set().contains(sorted@.take(N as int)[i as int]));
                let k = unsorted@.index_of(sorted@[i as int]);
            }
//@end
}

/// The i-th pointer refers to n values of the i-th type of the description.
pub open spec fn pointing(h: Heap, d: ArchetypeDescriptor, ptrs: Seq<Ptr<u8>>, n: int) -> bool {
    forall|i: int| #![trigger ptrs[i]] 0 <= i < d.len ==> {
        let p = d.parts()[i];
        &&& h.has(ptrs[i].block(), ptrs[i].off(), n * p.size) && h.aligned(ptrs[i].block(), ptrs[i].off(), p.align as int)
        &&& forall|k: int| 0 <= k < n ==> valid_bits(p.id(), #[trigger] h.values(p, ptrs[i].block(), ptrs[i].off(), n)[k])
    }
}
/// No two of them refer to the same memory.
pub open spec fn apart(d: ArchetypeDescriptor, ptrs: Seq<Ptr<u8>>, n: int) -> bool {
    forall|i: int, j: int| #![trigger ptrs[i], ptrs[j]] 0 <= i < j < d.len && n * d.parts()[i].size > 0 && n * d.parts()[j].size > 0 ==> ptrs[i].block() != ptrs[j].block()
}
/// The k-th values.
pub open spec fn gathered(h: Heap, d: ArchetypeDescriptor, ptrs: Seq<Ptr<u8>>, k: int, n: int) -> Map<u16, Bits> {
    Map::new(d.set(), |id: u16| { let i = d.ids().index_of(id); h.values(d.parts()[i], ptrs[i].block(), ptrs[i].off(), n)[k] })
}
/// The columns vs were written.
pub open spec fn scattered(h: Heap, ptrs: Seq<Ptr<u8>>, vs: Seq<Bits>, i: int) -> Heap
    decreases i
{
    if i <= 0 { h } else { scattered(h, ptrs, vs, i - 1).with(ptrs[i - 1].block(), ptrs[i - 1].off(), vs[i - 1]) }
}
/// Column i of these rows.
pub open spec fn column_of(rows: Seq<Map<u16, Bits>>, d: ArchetypeDescriptor, i: int, v: Bits) -> bool {
    let z = d.parts()[i].size as int;
    v.len() == rows.len() * z && forall|k: int| 0 <= k < rows.len() ==> v.subrange(k * z, k * z + z) == (#[trigger] rows[k])[d.ids()[i]]
}
/// These rows were written.
pub open spec fn overwrites(o: Heap, h: Heap, d: ArchetypeDescriptor, ptrs: Seq<Ptr<u8>>, rows: Seq<Map<u16, Bits>>) -> bool {
    &&& forall|k: int| 0 <= k < rows.len() ==> full_row(d, #[trigger] rows[k])
    &&& exists|vs: Seq<Bits>| #[trigger] scattered(o, ptrs, vs, d.len as int) == h && vs.len() == d.len
            && forall|i: int| 0 <= i < d.len ==> column_of(rows, d, i, #[trigger] vs[i])
}
/// A value of each type, and nothing else.
pub open spec fn full_row(d: ArchetypeDescriptor, m: Map<u16, Bits>) -> bool {
    m.dom() =~= d.set() && forall|i: int| 0 <= i < d.len ==> valid_bits(d.parts()[i].id(), m[#[trigger] d.ids()[i]]) && m[d.ids()[i]].len() == d.parts()[i].size
}

pub trait ComponentGroup: Sized {
    const DESCRIPTOR: ComponentGroupDescriptor;
    /// The components of the tuple, by identifier.
    spec fn comps(&self) -> Map<u16, Bits>;
    /// Every group descriptor is built by ComponentGroupDescriptor::new.
    proof fn canonical()
        ensures Self::DESCRIPTOR.valid() ==> Self::DESCRIPTOR.archetype.ok();
    proof fn full(&self)
        ensures full_row(Self::DESCRIPTOR.archetype, self.comps());
    /// Pointers to the components in the order of the description; the result stands for the tuple's memory.
    unsafe fn as_sorted_pointers(&mut self, ptrs: &mut [Ptr<u8>; 14]) -> (r: Mem)
        requires Self::DESCRIPTOR.valid()
        ensures *final(self) == *old(self), pointing(r@, Self::DESCRIPTOR.archetype, final(ptrs)@, 1),
            old(self).comps() == gathered(r@, Self::DESCRIPTOR.archetype, final(ptrs)@, 0, 1);
    unsafe fn read_from_sorted_pointers(mem: &Mem, pointers: &[Ptr<u8>; 14]) -> (r: Self)
        requires Self::DESCRIPTOR.valid(), pointing(mem@, Self::DESCRIPTOR.archetype, pointers@, 1)
        ensures r.comps() == gathered(mem@, Self::DESCRIPTOR.archetype, pointers@, 0, 1);
}
// ---------------------------------------------------------------------------------------------------------------------
// The functions of groups: a single type, and tuples of 2 to 14, the macro expanded for each. `desc` stands for Self::DESCRIPTOR,
// built by ComponentGroupDescriptor::new from the types in the order of the tuple.
/// A mutable reference, or slice, made from a pointer: where it points, and how many values it covers.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct At<T> { p: core::marker::PhantomData<T> }
impl<T> At<T> { pub uninterp spec fn ptr(&self) -> Ptr<T>; pub uninterp spec fn len(&self) -> int;
    pub open spec fn refers(&self, p: Ptr<u8>) -> bool { self.ptr().block() == p.block() && self.ptr().off() == p.off() }
}
impl Mem {
    /// `&mut *p`, where it points
    #[verifier::external_body]
    pub unsafe fn one_at<T>(&self, p: Ptr<T>) -> (r: At<T>)
        requires self@.valid(p)
        ensures r.ptr() == p, r.len() == 1
    { unimplemented!() }
    /// core::slice::from_raw_parts
    #[verifier::external_body]
    pub unsafe fn values_of<'a, T: Component>(&'a self, p: Ptr<T>, n: usize) -> (r: &'a [T])
        requires self@.has(p.block(), p.off(), n * T::DESCRIPTOR.size), self@.aligned(p.block(), p.off(), T::DESCRIPTOR.align as int),
            forall|k: int| 0 <= k < n ==> valid_bits(T::ID.0, #[trigger] self@.values(T::DESCRIPTOR, p.block(), p.off(), n as int)[k]),
        ensures r@.len() == n, forall|k: int| 0 <= k < n ==> (#[trigger] r@[k]).bits() == self@.values(T::DESCRIPTOR, p.block(), p.off(), n as int)[k]
    { unimplemented!() }
    /// core::slice::from_raw_parts_mut, where it points
    #[verifier::external_body]
    pub unsafe fn values_at<T: Component>(&self, p: Ptr<T>, n: usize) -> (r: At<T>)
        requires self@.has(p.block(), p.off(), n * T::DESCRIPTOR.size), self@.aligned(p.block(), p.off(), T::DESCRIPTOR.align as int),
            forall|k: int| 0 <= k < n ==> valid_bits(T::ID.0, #[trigger] self@.values(T::DESCRIPTOR, p.block(), p.off(), n as int)[k]),
        ensures r.ptr() == p, r.len() == n
    { unimplemented!() }
    /// The memory of a local variable, `&mut x as *mut T as *mut u8`: no other variable's.
    #[verifier::external_body]
    pub unsafe fn of<T: Component>(&mut self, x: &T) -> (r: Ptr<u8>)
        ensures kept_in(old(self)@, final(self)@), placed(final(self)@, r, x.bits(), T::DESCRIPTOR),
            forall|p: Ptr<u8>, v: Bits, d: ComponentDescriptor| placed(old(self)@, p, v, d) ==> #[trigger] placed(final(self)@, p, v, d),
    { unimplemented!() }
}
/// Nothing that was there is gone or changed.
pub open spec fn kept_in(o: Heap, h: Heap) -> bool { forall|b: int| #[trigger] o.blocks.contains_key(b) ==> h.blocks.contains_key(b) && h.blocks[b] == o.blocks[b] }
/// The pointer refers to a value of type d with these bytes.
pub open spec fn placed(h: Heap, p: Ptr<u8>, v: Bits, d: ComponentDescriptor) -> bool {
    &&& h.has(p.block(), p.off(), d.size as int) && h.aligned(p.block(), p.off(), d.align as int)
    &&& h.at(p.block(), p.off(), d.size as int) == v && valid_bits(d.id(), v)
}
//@lemma
pub proof fn lemma_kept_in(o: Heap, h: Heap, p: Ptr<u8>, v: Bits, d: ComponentDescriptor)
    requires kept_in(o, h), placed(o, p, v, d)
    ensures placed(h, p, v, d)
{}
/// Where the i-th type is in the order of the description.
//@lemma
pub proof fn lemma_element(desc: ComponentGroupDescriptor, types: Seq<ComponentDescriptor>, i: int, h: Heap, p: Seq<Ptr<u8>>, n: int)
    requires desc.describes(types), 0 <= i < types.len() <= 14, pointing(h, desc.archetype, p, n), p.len() == 14, n >= 0
    ensures ({
        let c = desc.unsorted_to_sorted@[i] as int;
        &&& 0 <= c < types.len() && desc.archetype.parts()[c] == types[i] && desc.archetype.set().contains(types[i].id()) && desc.archetype.ids().index_of(types[i].id()) == c
        &&& h.has(p[c].block(), p[c].off(), n * types[i].size) && h.aligned(p[c].block(), p[c].off(), types[i].align as int)
        &&& forall|k: int| 0 <= k < n ==> valid_bits(types[i].id(), #[trigger] h.values(types[i], p[c].block(), p[c].off(), n)[k])
        &&& forall|k: int| 0 <= k < n ==> #[trigger] gathered(h, desc.archetype, p, k, n)[types[i].id()] == h.values(types[i], p[c].block(), p[c].off(), n)[k]
        &&& n == 1 ==> h.values(types[i], p[c].block(), p[c].off(), 1)[0] == h.at(p[c].block(), p[c].off(), types[i].size as int)
        &&& n == 1 ==> valid_bits(types[i].id(), h.at(p[c].block(), p[c].off(), types[i].size as int))
    })
{
    let c = desc.unsorted_to_sorted@[i] as int;
    let ids = desc.archetype.ids();
    assert(ids[c] == types[i].id());
    assert(ids.contains(types[i].id()));
    let d = ids.index_of(types[i].id());
    if c < d { assert(ids[c] < ids[d]); }
    if d < c { assert(ids[d] < ids[c]); }
    assert(p[c] == p[c]);
    if n == 1 { assert(h.values(types[i], p[c].block(), p[c].off(), n)[0] == h.at(p[c].block(), p[c].off() + 0 * types[i].size, types[i].size as int)); }
}
/// With every type's value in place, the pointers are those of the row.
//@lemma
pub proof fn lemma_row_of(desc: ComponentGroupDescriptor, types: Seq<ComponentDescriptor>, vs: Seq<Bits>, h: Heap, p: Seq<Ptr<u8>>)
    requires desc.describes(types), types.len() <= 14, vs.len() == types.len(), p.len() == 14,
        forall|i: int| 0 <= i < types.len() ==> placed(h, p[#[trigger] desc.unsorted_to_sorted@[i] as int], vs[i], types[i])
    ensures pointing(h, desc.archetype, p, 1), forall|i: int| 0 <= i < types.len() ==> gathered(h, desc.archetype, p, 0, 1)[(#[trigger] types[i]).id()] == vs[i]
{
    let ids = desc.archetype.ids();
    assert forall|c: int| #![trigger p[c]] 0 <= c < desc.archetype.len implies ({
            let d = desc.archetype.parts()[c];
            &&& h.has(p[c].block(), p[c].off(), 1 * d.size) && h.aligned(p[c].block(), p[c].off(), d.align as int)
            &&& forall|k: int| 0 <= k < 1 ==> valid_bits(d.id(), #[trigger] h.values(d, p[c].block(), p[c].off(), 1)[k])
        }) by {
        let i = desc.sorted_to_unsorted@[c] as int;
        let e = desc.unsorted_to_sorted@[i] as int;
        assert(desc.archetype.parts()[e] == types[i] && types[i] == desc.archetype.parts()[c]);
        assert(ids[e] == ids[c]);
        if c < e { assert(ids[c] < ids[e]); }
        if e < c { assert(ids[e] < ids[c]); }
        let d = desc.archetype.parts()[c];
        assert(h.values(d, p[c].block(), p[c].off(), 1)[0] == h.at(p[c].block(), p[c].off() + 0 * d.size, d.size as int));
        assert(0 * d.size == 0 && 1 * d.size == d.size) by (nonlinear_arith);
    }
    assert forall|i: int| 0 <= i < types.len() implies gathered(h, desc.archetype, p, 0, 1)[(#[trigger] types[i]).id()] == vs[i] by {
        lemma_element(desc, types, i, h, p, 1);
        let c = desc.unsorted_to_sorted@[i] as int;
    }
}


/// The values vs of the types, by identifier.
pub open spec fn values_by_id(types: Seq<ComponentDescriptor>, vs: Seq<Bits>) -> Map<u16, Bits> {
    Map::new(ids_of(types).to_set(), |id: u16| vs[ids_of(types).index_of(id)])
}
//@lemma
pub proof fn lemma_comps_of(types: Seq<ComponentDescriptor>, vs: Seq<Bits>, i: int)
    requires group_of(types), vs.len() == types.len(), 0 <= i < types.len()
    ensures values_by_id(types, vs).contains_key(types[i].id()), values_by_id(types, vs)[types[i].id()] == vs[i]
{
    let ids = ids_of(types);
    assert(ids[i] == types[i].id());
    let k = ids.index_of(types[i].id());
    assert(types[k].id() == types[i].id());
}
/// The same identifiers.
//@lemma
pub proof fn lemma_group_set(desc: ComponentGroupDescriptor, types: Seq<ComponentDescriptor>)
    requires desc.describes(types), types.len() <= 14
    ensures ids_of(types).to_set() =~= desc.archetype.set()
{
    let p = desc.archetype.parts();
    assert forall|x: u16| ids_of(types).to_set().contains(x) == desc.archetype.set().contains(x) by {
        if ids_of(types).contains(x) { let i = ids_of(types).index_of(x); let c = desc.unsorted_to_sorted@[i] as int; assert(desc.archetype.ids()[c] == x); }
        if desc.archetype.ids().contains(x) { let c = desc.archetype.ids().index_of(x); let i = desc.sorted_to_unsorted@[c] as int; assert(ids_of(types)[i] == x); }
    }
}
/// What is gathered are the values of the types.
//@lemma
pub proof fn lemma_whole(desc: ComponentGroupDescriptor, types: Seq<ComponentDescriptor>, vs: Seq<Bits>, h: Heap, p: Seq<Ptr<u8>>, k: int, n: int)
    requires group_of(types), desc.describes(types), vs.len() == types.len(), types.len() <= 14,
        forall|i: int| 0 <= i < types.len() ==> vs[i] == #[trigger] gathered(h, desc.archetype, p, k, n)[types[i].id()]
    ensures values_by_id(types, vs) == gathered(h, desc.archetype, p, k, n)
{
    lemma_group_set(desc, types);
    let g = gathered(h, desc.archetype, p, k, n);
    assert forall|x: u16| values_by_id(types, vs).contains_key(x) implies values_by_id(types, vs)[x] == g[x] by {
        let i = ids_of(types).index_of(x);
        assert(types[i].id() == x);
    }
    assert(values_by_id(types, vs) =~= g);
}
/// Every type of the group and no other has a value of the type.
//@lemma
pub proof fn lemma_full_group(desc: ComponentGroupDescriptor, types: Seq<ComponentDescriptor>, vs: Seq<Bits>)
    requires group_of(types), desc.describes(types), vs.len() == types.len(), types.len() <= 14,
        forall|i: int| 0 <= i < types.len() ==> described(#[trigger] types[i]) && valid_bits(types[i].id(), vs[i]) && vs[i].len() == types[i].size
    ensures desc.archetype.ok(), full_row(desc.archetype, values_by_id(types, vs))
{
    lemma_group(desc, types);
    lemma_group_set(desc, types);
    let p = desc.archetype.parts();
    assert forall|c: int| 0 <= c < desc.archetype.len implies values_by_id(types, vs)[(#[trigger] p[c]).id()] == vs[desc.sorted_to_unsorted@[c] as int]
        && types[desc.sorted_to_unsorted@[c] as int] == p[c] by {
        lemma_comps_of(types, vs, desc.sorted_to_unsorted@[c] as int);
    }
}
/// Values of size that n values of each type take, at these places, in blocks of their own.
pub open spec fn distinct_blocks(types: Seq<ComponentDescriptor>, bs: Seq<int>, n: int) -> bool {
    forall|i: int, j: int| #![trigger bs[i], bs[j]] 0 <= i < j < types.len() && n * types[i].size > 0 && n * types[j].size > 0 ==> bs[i] != bs[j]
}
/// Pointers apart in the order of the description are so in the order of the tuple.
//@lemma
pub proof fn lemma_apart(desc: ComponentGroupDescriptor, types: Seq<ComponentDescriptor>, bs: Seq<int>, p: Seq<Ptr<u8>>, n: int)
    requires group_of(types), desc.describes(types), bs.len() == types.len(), types.len() <= 14, p.len() == 14,
        forall|i: int| 0 <= i < types.len() ==> #[trigger] bs[i] == p[desc.unsorted_to_sorted@[i] as int].block()
    ensures apart(desc.archetype, p, n) ==> distinct_blocks(types, bs, n)
{
    assert forall|i: int, j: int| #![trigger bs[i], bs[j]] apart(desc.archetype, p, n) && 0 <= i < j < types.len() && n * types[i].size > 0 && n * types[j].size > 0 implies bs[i] != bs[j] by {
        let (a, b) = (desc.unsorted_to_sorted@[i] as int, desc.unsorted_to_sorted@[j] as int);
        assert(desc.archetype.parts()[a] == types[i] && desc.archetype.parts()[b] == types[j]);
        assert(types[i].id() != types[j].id());
        if a < b { assert(p[a].block() != p[b].block()); } else { assert(p[b].block() != p[a].block()); }
    }
}
/// A tuple's memory: every value in the place of its type.
//@lemma
pub proof fn lemma_all_placed(desc: ComponentGroupDescriptor, types: Seq<ComponentDescriptor>, vs: Seq<Bits>, h: Heap, p: Seq<Ptr<u8>>)
    requires group_of(types), desc.describes(types), vs.len() == types.len(), p.len() == 14,
        forall|i: int| 0 <= i < types.len() ==> described(#[trigger] types[i]),
        forall|i: int| 0 <= i < types.len() ==> placed(h, p[#[trigger] desc.unsorted_to_sorted@[i] as int], vs[i], types[i])
    ensures pointing(h, desc.archetype, p, 1), forall|i: int| 0 <= i < types.len() ==> gathered(h, desc.archetype, p, 0, 1)[(#[trigger] types[i]).id()] == vs[i],
        values_by_id(types, vs) == gathered(h, desc.archetype, p, 0, 1), full_row(desc.archetype, values_by_id(types, vs)), desc.archetype.ok()
{
    assert forall|i: int| 0 <= i < types.len() implies described(#[trigger] types[i]) && valid_bits(types[i].id(), vs[i]) && vs[i].len() == types[i].size by {
        assert(placed(h, p[desc.unsorted_to_sorted@[i] as int], vs[i], types[i]));
    }
    lemma_row_of(desc, types, vs, h, p);
    lemma_whole(desc, types, vs, h, p, 0, 1);
    lemma_full_group(desc, types, vs);
}

//@fn descriptors/component_group.rs | impl<T: Component \+ SealedComponentGroup> ComponentGroup for T | DESCRIPTOR -> r as ComponentGroup::DESCRIPTOR/1
//@sub `fn const_DESCRIPTOR()` => `fn group_descriptor_1<T: Component>()`
    ensures r.valid(), r.describes(seq![T::DESCRIPTOR]), r.archetype.ok()
//@ret
    proof { T::own_id(); let types = seq![T::DESCRIPTOR]; assert(types[0] == T::DESCRIPTOR); assert(group_of(types)); lemma_group(r, types); }
//@end
//@fn descriptors/component_group.rs | impl<T: Component \+ SealedComponentGroup> ComponentGroup for T | read_from_sorted_pointers -> r as ComponentGroup::read_from_sorted_pointers/1
//@sub `read_from_sorted_pointers(` => `read_from_sorted_pointers_1<T: Component>(mem: &Mem, desc: &ComponentGroupDescriptor, `
//@sub `-> Self` => `-> T`
//@sub `[*mut u8; MAX_COMPONENTS_PER_ENTITY]` => `[Ptr<u8>; 14]`
//@sub `Self::DESCRIPTOR` => `desc`
//@call `core::ptr::read` => `mem.read(`
//@cast
    requires group_of(seq![T::DESCRIPTOR]), desc.describes(seq![T::DESCRIPTOR]), pointing(mem@, desc.archetype, pointers@, 1)
    ensures r.bits() == gathered(mem@, desc.archetype, pointers@, 0, 1)[T::ID.0],
        values_by_id(seq![T::DESCRIPTOR], seq![r.bits()]) == gathered(mem@, desc.archetype, pointers@, 0, 1)
//@start
    let ghost types = seq![T::DESCRIPTOR];
    proof { T::own_id(); lemma_element(*desc, types, 0, mem@, pointers@, 1); }
//@ret
    proof { let types = seq![T::DESCRIPTOR]; let vs = seq![r.bits()]; assert(types[0] == T::DESCRIPTOR); lemma_whole(*desc, types, vs, mem@, pointers@, 0, 1); }
//@end
//@fn descriptors/component_group.rs | impl<T: Component \+ SealedComponentGroup> ComponentGroup for T | pointers_as_ref_tuple -> r as ComponentGroup::pointers_as_ref_tuple/1
//@sub `pointers_as_ref_tuple<'a, 'b>(` => `pointers_as_ref_tuple_1<'a, T: Component>(mem: &'a Mem, desc: &ComponentGroupDescriptor, `
//@sub `-> Self::RefTuple<'b>` => `-> &'a T`
//@sub `[*mut u8; MAX_COMPONENTS_PER_ENTITY]` => `[Ptr<u8>; 14]`
//@sub `Self::DESCRIPTOR` => `desc`
//@typed mem.get( mem.get_mut(
//@cast
    requires group_of(seq![T::DESCRIPTOR]), desc.describes(seq![T::DESCRIPTOR]), pointing(mem@, desc.archetype, sorted_pointers@, 1)
    ensures r.bits() == gathered(mem@, desc.archetype, sorted_pointers@, 0, 1)[T::ID.0],
        values_by_id(seq![T::DESCRIPTOR], seq![r.bits()]) == gathered(mem@, desc.archetype, sorted_pointers@, 0, 1)
//@start
    let ghost types = seq![T::DESCRIPTOR];
    proof { T::own_id(); lemma_element(*desc, types, 0, mem@, sorted_pointers@, 1); }
//@ret
    proof { let types = seq![T::DESCRIPTOR]; let vs = seq![r.bits()]; assert(types[0] == T::DESCRIPTOR); lemma_whole(*desc, types, vs, mem@, sorted_pointers@, 0, 1); }
//@end
//@fn descriptors/component_group.rs | impl<T: Component \+ SealedComponentGroup> ComponentGroup for T | pointers_as_mut_ref_tuple -> r as ComponentGroup::pointers_as_mut_ref_tuple/1
//@sub `pointers_as_mut_ref_tuple<'a, 'b>(` => `pointers_as_mut_ref_tuple_1<'a, T: Component>(mem: &'a Mem, desc: &ComponentGroupDescriptor, `
//@sub `-> Self::MutRefTuple<'b>` => `-> At<T>`
//@sub `[*mut u8; MAX_COMPONENTS_PER_ENTITY]` => `[Ptr<u8>; 14]`
//@sub `Self::DESCRIPTOR` => `desc`
//@typed mem.get( mem.one_at(
//@cast
    requires group_of(seq![T::DESCRIPTOR]), desc.describes(seq![T::DESCRIPTOR]), pointing(mem@, desc.archetype, sorted_pointers@, 1)
    ensures r.refers(sorted_pointers@[desc.archetype.ids().index_of(T::ID.0)]),
        apart(desc.archetype, sorted_pointers@, 1) ==> distinct_blocks(seq![T::DESCRIPTOR], seq![r.ptr().block()], 1)
//@start
    let ghost types = seq![T::DESCRIPTOR];
    proof { T::own_id(); lemma_element(*desc, types, 0, mem@, sorted_pointers@, 1); }
//@ret
    proof { let types = seq![T::DESCRIPTOR]; let bs = seq![r.ptr().block()]; assert(types[0] == T::DESCRIPTOR); lemma_apart(*desc, types, bs, sorted_pointers@, 1); }
//@end
//@fn descriptors/component_group.rs | impl<T: Component \+ SealedComponentGroup> ComponentGroup for T | slice_unchecked -> r as ComponentGroup::slice_unchecked/1
//@sub `slice_unchecked<'a, 'b>(` => `slice_unchecked_1<'a, T: Component>(mem: &'a Mem, desc: &ComponentGroupDescriptor, `
//@sub `-> Self::SliceRefTuple<'b>` => `-> &'a [T]`
//@sub `[*mut u8; MAX_COMPONENTS_PER_ENTITY]` => `[Ptr<u8>; 14]`
//@sub `Self::DESCRIPTOR` => `desc`
//@call `core::slice::from_raw_parts` => `mem.values_of(`
//@cast
    requires group_of(seq![T::DESCRIPTOR]), desc.describes(seq![T::DESCRIPTOR]), pointing(mem@, desc.archetype, sorted_pointers@, len as int)
    ensures r@.len() == len, forall|k: int| 0 <= k < len ==> (#[trigger] r@[k]).bits() == gathered(mem@, desc.archetype, sorted_pointers@, k, len as int)[T::ID.0],
        forall|k: int| 0 <= k < len ==> values_by_id(seq![T::DESCRIPTOR], seq![r@[k].bits()]) == #[trigger] gathered(mem@, desc.archetype, sorted_pointers@, k, len as int)
//@start
    let ghost types = seq![T::DESCRIPTOR];
    proof { T::own_id(); lemma_element(*desc, types, 0, mem@, sorted_pointers@, len as int); }
//@ret
    proof { let types = seq![T::DESCRIPTOR]; assert(types[0] == T::DESCRIPTOR); assert forall|k: int| 0 <= k < len implies values_by_id(types, seq![r@[k].bits()]) == #[trigger] gathered(mem@, desc.archetype, sorted_pointers@, k, len as int) by { let vs = seq![r@[k].bits()]; lemma_whole(*desc, types, vs, mem@, sorted_pointers@, k, len as int); } }
//@end
//@fn descriptors/component_group.rs | impl<T: Component \+ SealedComponentGroup> ComponentGroup for T | slice_unchecked_mut -> r as ComponentGroup::slice_unchecked_mut/1
//@sub `slice_unchecked_mut<'a, 'b>(` => `slice_unchecked_mut_1<'a, T: Component>(mem: &'a Mem, desc: &ComponentGroupDescriptor, `
//@sub `-> Self::SliceMutRefTuple<'b>` => `-> At<T>`
//@sub `[*mut u8; MAX_COMPONENTS_PER_ENTITY]` => `[Ptr<u8>; 14]`
//@sub `Self::DESCRIPTOR` => `desc`
//@call `core::slice::from_raw_parts_mut` => `mem.values_at(`
//@cast
    requires group_of(seq![T::DESCRIPTOR]), desc.describes(seq![T::DESCRIPTOR]), pointing(mem@, desc.archetype, sorted_pointers@, len as int)
    ensures r.len() == len, r.refers(sorted_pointers@[desc.archetype.ids().index_of(T::ID.0)]),
        apart(desc.archetype, sorted_pointers@, len as int) ==> distinct_blocks(seq![T::DESCRIPTOR], seq![r.ptr().block()], len as int)
//@start
    let ghost types = seq![T::DESCRIPTOR];
    proof { T::own_id(); lemma_element(*desc, types, 0, mem@, sorted_pointers@, len as int); }
//@ret
    proof { let types = seq![T::DESCRIPTOR]; let bs = seq![r.ptr().block()]; assert(types[0] == T::DESCRIPTOR); lemma_apart(*desc, types, bs, sorted_pointers@, len as int); }
//@end
//@fn descriptors/component_group.rs | impl<T: Component \+ SealedComponentGroup> ComponentGroup for T | as_sorted_pointers as ComponentGroup::as_sorted_pointers/1
//@sub `as_sorted_pointers(&mut self,` => `as_sorted_pointers_1<T: Component>(local: &mut Mem, this: &mut T, desc: &ComponentGroupDescriptor, `
//@sub `[*mut u8; MAX_COMPONENTS_PER_ENTITY]` => `[Ptr<u8>; 14]`
//@sub `Self::DESCRIPTOR` => `desc`
//@sub `self as *mut T as *mut u8` => `local.of(&*this)`
    requires group_of(seq![T::DESCRIPTOR]), desc.describes(seq![T::DESCRIPTOR])
    ensures *final(this) == *old(this), pointing(final(local)@, desc.archetype, final(ptrs)@, 1),
        gathered(final(local)@, desc.archetype, final(ptrs)@, 0, 1)[T::ID.0] == old(this).bits(),
        values_by_id(seq![T::DESCRIPTOR], seq![old(this).bits()]) == gathered(final(local)@, desc.archetype, final(ptrs)@, 0, 1), full_row(desc.archetype, values_by_id(seq![T::DESCRIPTOR], seq![old(this).bits()])), desc.archetype.ok()
//@start
    let ghost types = seq![T::DESCRIPTOR];
    let ghost vs = seq![this.bits()];
    proof { T::own_id(); }
//@tail
    proof { assert(types[0] == T::DESCRIPTOR); lemma_row_of(*desc, types, vs, local@, ptrs@); lemma_whole(*desc, types, vs, local@, ptrs@, 0, 1); lemma_full_group(*desc, types, vs); }
//@end
//@tuples 2 14
//@fn descriptors/component_group.rs | macro impl_component_tuple $N | DESCRIPTOR -> r as ComponentGroup::DESCRIPTOR/$N
//@sub `fn const_DESCRIPTOR()` => `fn group_descriptor_$N<$[$E: Component, $]>()`
    ensures r.valid() == group_of(seq![$[$E::DESCRIPTOR, $]]), r.valid() ==> r.describes(seq![$[$E::DESCRIPTOR, $]]) && r.archetype.ok()
//@ret
    proof { let types = seq![$[$E::DESCRIPTOR, $]]; $[$E::own_id(); assert(types[$i] == $E::DESCRIPTOR); $] if r.valid() { lemma_group(r, types); } }
//@end
//@fn descriptors/component_group.rs | macro impl_component_tuple $N | read_from_sorted_pointers -> r as ComponentGroup::read_from_sorted_pointers/$N
//@sub `read_from_sorted_pointers(` => `read_from_sorted_pointers_$N<$[$E: Component, $]>(mem: &Mem, desc: &ComponentGroupDescriptor, `
//@sub `[*mut u8; MAX_COMPONENTS_PER_ENTITY]` => `[Ptr<u8>; 14]`
//@sub `-> Self` => `-> ($[$E, $])`
//@sub `Self::DESCRIPTOR` => `desc`
//@call `core::ptr::read` => `mem.read(`
//@cast
    requires group_of(seq![$[$E::DESCRIPTOR, $]]), desc.describes(seq![$[$E::DESCRIPTOR, $]]), pointing(mem@, desc.archetype, pointers@, 1)
    ensures $[r.$i.bits() == gathered(mem@, desc.archetype, pointers@, 0, 1)[$E::ID.0], $]
        values_by_id(seq![$[$E::DESCRIPTOR, $]], seq![$[r.$i.bits(), $]]) == gathered(mem@, desc.archetype, pointers@, 0, 1)
//@start
    proof { let types = seq![$[$E::DESCRIPTOR, $]]; $[$E::own_id(); lemma_element(*desc, types, $i, mem@, pointers@, 1); $] }
//@ret
    proof { let types = seq![$[$E::DESCRIPTOR, $]]; let vs = seq![$[r.$i.bits(), $]]; $[assert(types[$i] == $E::DESCRIPTOR); $] lemma_whole(*desc, types, vs, mem@, pointers@, 0, 1); }
//@end
//@fn descriptors/component_group.rs | macro impl_component_tuple $N | pointers_as_ref_tuple -> r as ComponentGroup::pointers_as_ref_tuple/$N
//@sub `pointers_as_ref_tuple<'a, 'b>(` => `pointers_as_ref_tuple_$N<'a, $[$E: Component, $]>(mem: &'a Mem, desc: &ComponentGroupDescriptor, `
//@sub `[*mut u8; MAX_COMPONENTS_PER_ENTITY]` => `[Ptr<u8>; 14]`
//@sub `-> Self::RefTuple<'b>` => `-> ($[&'a $E, $])`
//@sub `Self::DESCRIPTOR` => `desc`
//@typed mem.get( mem.get_mut(
//@cast
    requires group_of(seq![$[$E::DESCRIPTOR, $]]), desc.describes(seq![$[$E::DESCRIPTOR, $]]), pointing(mem@, desc.archetype, sorted_pointers@, 1)
    ensures $[r.$i.bits() == gathered(mem@, desc.archetype, sorted_pointers@, 0, 1)[$E::ID.0], $]
        values_by_id(seq![$[$E::DESCRIPTOR, $]], seq![$[r.$i.bits(), $]]) == gathered(mem@, desc.archetype, sorted_pointers@, 0, 1)
//@start
    proof { let types = seq![$[$E::DESCRIPTOR, $]]; $[$E::own_id(); lemma_element(*desc, types, $i, mem@, sorted_pointers@, 1); $] }
//@ret
    proof { let types = seq![$[$E::DESCRIPTOR, $]]; let vs = seq![$[r.$i.bits(), $]]; $[assert(types[$i] == $E::DESCRIPTOR); $] lemma_whole(*desc, types, vs, mem@, sorted_pointers@, 0, 1); }
//@end
//@fn descriptors/component_group.rs | macro impl_component_tuple $N | pointers_as_mut_ref_tuple -> r as ComponentGroup::pointers_as_mut_ref_tuple/$N
//@sub `pointers_as_mut_ref_tuple<'a, 'b>(` => `pointers_as_mut_ref_tuple_$N<'a, $[$E: Component, $]>(mem: &'a Mem, desc: &ComponentGroupDescriptor, `
//@sub `[*mut u8; MAX_COMPONENTS_PER_ENTITY]` => `[Ptr<u8>; 14]`
//@sub `-> Self::MutRefTuple<'b>` => `-> ($[At<$E>, $])`
//@sub `Self::DESCRIPTOR` => `desc`
//@typed mem.get( mem.one_at(
//@cast
    requires group_of(seq![$[$E::DESCRIPTOR, $]]), desc.describes(seq![$[$E::DESCRIPTOR, $]]), pointing(mem@, desc.archetype, sorted_pointers@, 1)
    ensures $[r.$i.refers(sorted_pointers@[desc.archetype.ids().index_of($E::ID.0)]), $]
        apart(desc.archetype, sorted_pointers@, 1) ==> distinct_blocks(seq![$[$E::DESCRIPTOR, $]], seq![$[r.$i.ptr().block(), $]], 1)
//@start
    proof { let types = seq![$[$E::DESCRIPTOR, $]]; $[$E::own_id(); lemma_element(*desc, types, $i, mem@, sorted_pointers@, 1); $] }
//@ret
    proof { let types = seq![$[$E::DESCRIPTOR, $]]; let bs = seq![$[r.$i.ptr().block(), $]]; $[assert(types[$i] == $E::DESCRIPTOR); $] lemma_apart(*desc, types, bs, sorted_pointers@, 1); }
//@end
//@fn descriptors/component_group.rs | macro impl_component_tuple $N | slice_unchecked -> r as ComponentGroup::slice_unchecked/$N
//@sub `slice_unchecked<'a, 'b>(` => `slice_unchecked_$N<'a, $[$E: Component, $]>(mem: &'a Mem, desc: &ComponentGroupDescriptor, `
//@sub `[*mut u8; MAX_COMPONENTS_PER_ENTITY]` => `[Ptr<u8>; 14]`
//@sub `-> Self::SliceRefTuple<'b>` => `-> ($[&'a [$E], $])`
//@sub `Self::DESCRIPTOR` => `desc`
//@call `core::slice::from_raw_parts` => `mem.values_of(`
//@cast
    requires group_of(seq![$[$E::DESCRIPTOR, $]]), desc.describes(seq![$[$E::DESCRIPTOR, $]]), pointing(mem@, desc.archetype, sorted_pointers@, len as int)
    ensures $[r.$i@.len() == len, $]
        $[forall|k: int| 0 <= k < len ==> (#[trigger] r.$i@[k]).bits() == gathered(mem@, desc.archetype, sorted_pointers@, k, len as int)[$E::ID.0], $]
        forall|k: int| 0 <= k < len ==> values_by_id(seq![$[$E::DESCRIPTOR, $]], seq![$[r.$i@[k].bits(), $]]) == #[trigger] gathered(mem@, desc.archetype, sorted_pointers@, k, len as int)
//@start
    proof { let types = seq![$[$E::DESCRIPTOR, $]]; $[$E::own_id(); lemma_element(*desc, types, $i, mem@, sorted_pointers@, len as int); $] }
//@ret
    proof { let types = seq![$[$E::DESCRIPTOR, $]]; $[assert(types[$i] == $E::DESCRIPTOR); $] assert forall|k: int| 0 <= k < len implies values_by_id(types, seq![$[r.$i@[k].bits(), $]]) == #[trigger] gathered(mem@, desc.archetype, sorted_pointers@, k, len as int) by { let vs = seq![$[r.$i@[k].bits(), $]]; lemma_whole(*desc, types, vs, mem@, sorted_pointers@, k, len as int); } }
//@end
//@fn descriptors/component_group.rs | macro impl_component_tuple $N | slice_unchecked_mut -> r as ComponentGroup::slice_unchecked_mut/$N
//@sub `slice_unchecked_mut<'a, 'b>(` => `slice_unchecked_mut_$N<'a, $[$E: Component, $]>(mem: &'a Mem, desc: &ComponentGroupDescriptor, `
//@sub `[*mut u8; MAX_COMPONENTS_PER_ENTITY]` => `[Ptr<u8>; 14]`
//@sub `-> Self::SliceMutRefTuple<'b>` => `-> ($[At<$E>, $])`
//@sub `Self::DESCRIPTOR` => `desc`
//@call `core::slice::from_raw_parts_mut` => `mem.values_at(`
//@cast
    requires group_of(seq![$[$E::DESCRIPTOR, $]]), desc.describes(seq![$[$E::DESCRIPTOR, $]]), pointing(mem@, desc.archetype, sorted_pointers@, len as int)
    ensures $[r.$i.len() == len, r.$i.refers(sorted_pointers@[desc.archetype.ids().index_of($E::ID.0)]), $]
        apart(desc.archetype, sorted_pointers@, len as int) ==> distinct_blocks(seq![$[$E::DESCRIPTOR, $]], seq![$[r.$i.ptr().block(), $]], len as int)
//@start
    proof { let types = seq![$[$E::DESCRIPTOR, $]]; $[$E::own_id(); lemma_element(*desc, types, $i, mem@, sorted_pointers@, len as int); $] }
//@ret
    proof { let types = seq![$[$E::DESCRIPTOR, $]]; let bs = seq![$[r.$i.ptr().block(), $]]; $[assert(types[$i] == $E::DESCRIPTOR); $] lemma_apart(*desc, types, bs, sorted_pointers@, len as int); }
//@end
//@fn descriptors/component_group.rs | macro impl_component_tuple $N | as_sorted_pointers as ComponentGroup::as_sorted_pointers/$N
//@sub `as_sorted_pointers(&mut self,` => `as_sorted_pointers_$N<$[$E: Component, $]>(local: &mut Mem, this: &mut ($[$E, $]), desc: &ComponentGroupDescriptor, `
//@sub `[*mut u8; MAX_COMPONENTS_PER_ENTITY]` => `[Ptr<u8>; 14]`
//@sub `Self::DESCRIPTOR` => `desc`
$*//@sub `&mut self.$i as *mut $E as *mut u8` => `local.of(&this.$i)`
    requires group_of(seq![$[$E::DESCRIPTOR, $]]), desc.describes(seq![$[$E::DESCRIPTOR, $]])
    ensures *final(this) == *old(this), pointing(final(local)@, desc.archetype, final(ptrs)@, 1),
        $[gathered(final(local)@, desc.archetype, final(ptrs)@, 0, 1)[$E::ID.0] == old(this).$i.bits(), $]
        values_by_id(seq![$[$E::DESCRIPTOR, $]], seq![$[old(this).$i.bits(), $]]) == gathered(final(local)@, desc.archetype, final(ptrs)@, 0, 1), full_row(desc.archetype, values_by_id(seq![$[$E::DESCRIPTOR, $]], seq![$[old(this).$i.bits(), $]])), desc.archetype.ok()
//@start
    hide(placed); hide(kept_in); hide(pointing); hide(gathered); hide(full_row); hide(ArchetypeDescriptor::ok); hide(values_by_id);
    let ghost types = seq![$[$E::DESCRIPTOR, $]];
    let ghost vs = seq![$[this.$i.bits(), $]];
    proof { $[$E::own_id(); $] assert forall|i: int, j: int| #![trigger types[i], types[j]] 0 <= i < j < types.len() implies desc.unsorted_to_sorted@[i] != desc.unsorted_to_sorted@[j] by { assert(types[i].id() != types[j].id()); } $[assert(types[$i] == $E::DESCRIPTOR); $] }
//@tail
    proof {
        assert forall|i: int| 0 <= i < types.len() implies placed(local@, ptrs@[#[trigger] desc.unsorted_to_sorted@[i] as int], vs[i], types[i]) by { $[if i == $i { } else $] {} }
        lemma_all_placed(*desc, types, vs, local@, ptrs@);
        $[assert(types[$i] == $E::DESCRIPTOR); $]
    }
//@end
//@endtuples

#[verifier::external_body]
pub fn forget<T>(x: T) { unimplemented!() }
/// `unreachable!()`
#[verifier::external_body]
pub fn never<T>() -> (r: T) requires false { unimplemented!() }

// ---------------------------------------------------------------------------------------------------------------------
// Archetypes: storage blocks.
pub ghost struct Row { pub handle: Entity, pub comps: Map<u16, Bits> }

//@struct archetype/mod.rs Archetype + mem: Mem

pub open spec fn swapped<T>(s: Seq<T>, i: int, j: int) -> Seq<T> { s.update(i, s[j]).update(j, s[i]) }

/// The storage of an archetype: a column of handles (number -1) and one per component type.
pub ghost struct Store { pub heap: Heap, pub pointers: Seq<Ptr<u8>>, pub ents: Ptr<Entity>, pub descriptor: ArchetypeDescriptor, pub capacity: int }
impl Store {
    pub open spec fn len(&self) -> int { self.descriptor.len as int }
    pub open spec fn id(&self, c: int) -> u16 { self.descriptor.ids()[c] }
    pub open spec fn size(&self, c: int) -> int { if c < 0 { 4 } else { self.descriptor.parts()[c].size as int } }
    pub open spec fn align(&self, c: int) -> int { if c < 0 { 4 } else { self.descriptor.parts()[c].align as int } }
    pub open spec fn blk(&self, c: int) -> int { if c < 0 { self.ents.block() } else { self.pointers[c].block() } }
    pub open spec fn off(&self, c: int) -> int { if c < 0 { self.ents.off() } else { self.pointers[c].off() } }
    pub open spec fn used(&self, c: int) -> bool { self.used_at(self.full(), c) }
    /// caps[c + 1]: the number of rows column c has memory for.
    pub open spec fn full(&self) -> Seq<int> { Seq::new((self.len() + 1) as nat, |i: int| self.capacity) }
    pub open spec fn used_at(&self, caps: Seq<int>, c: int) -> bool { caps[c + 1] > 0 && self.size(c) > 0 }
    /// A column with any bytes is a block of its own of exactly these bytes, aligned; one without is a dangling, aligned pointer.
    pub open spec fn column_ok(&self, caps: Seq<int>, c: int) -> bool {
        if !self.used_at(caps, c) { self.blk(c) < 0 && self.off(c) == self.align(c) } else {
            &&& self.blk(c) >= 0 && self.off(c) == 0 && self.heap.blocks.contains_key(self.blk(c))
            &&& self.heap.blocks[self.blk(c)].bytes.len() == caps[c + 1] * self.size(c)
            &&& self.heap.blocks[self.blk(c)].align == self.align(c)
        }
    }
    pub open spec fn owns(&self, caps: Seq<int>, b: int) -> bool { exists|c: int| -1 <= c < self.len() && #[trigger] self.used_at(caps, c) && self.blk(c) == b }
    pub open spec fn logged(&self) -> nat { self.heap.gone[self.id(0)].len() }
    /// All columns, and no other memory, with these capacities.
    #[verifier::opaque]
    pub open spec fn laid_out(&self, caps: Seq<int>) -> bool {
        &&& self.descriptor.ok() && caps.len() == self.len() + 1 && self.pointers.len() == 14
        &&& forall|c: int| -1 <= c < self.len() ==> 0 <= #[trigger] caps[c + 1] <= MAXE()
        &&& forall|c: int| -1 <= c < self.len() ==> #[trigger] self.column_ok(caps, c)
        &&& forall|c: int, d: int| -1 <= c < d < self.len() && #[trigger] self.used_at(caps, c) && #[trigger] self.used_at(caps, d) ==> self.blk(c) != self.blk(d)
        &&& forall|b: int| self.heap.blocks.contains_key(b) ==> #[trigger] self.owns(caps, b)
    }
    /// Every column's log has the same length.
    #[verifier::opaque]
    pub open spec fn even_log(&self) -> bool {
        forall|c: int| 0 <= c < self.len() ==> self.heap.gone.contains_key(#[trigger] self.id(c)) && self.heap.gone[self.id(c)].len() == self.logged()
    }
    pub open spec fn ok(&self) -> bool { 0 <= self.capacity <= MAXE() && self.laid_out(self.full()) && self.even_log() }
    pub open spec fn cell(&self, c: int, r: int) -> Bits { self.heap.at(self.blk(c), self.off(c) + r * self.size(c), self.size(c)) }
    pub open spec fn col(&self, id: u16) -> int { self.descriptor.ids().index_of(id) }
    #[verifier::opaque]
    pub open spec fn cells(&self) -> Seq<Map<u16, Bits>> {
        Seq::new(self.capacity as nat, |r: int| Map::new(self.descriptor.set().filter(|id: u16| valid_bits(id, self.cell(self.col(id), r))),
            |id: u16| self.cell(self.col(id), r)))
    }
    #[verifier::opaque]
    pub open spec fn handles(&self) -> Seq<Entity> { Seq::new(self.capacity as nat, |r: int| unraw::<Entity>(self.cell(-1, r))) }
    #[verifier::opaque]
    pub open spec fn drops(&self) -> Seq<Map<u16, Bits>> {
        Seq::new(self.logged(), |k: int| Map::new(self.descriptor.set(), |id: u16| self.heap.gone[id][k]))
    }
    /// The same columns, with other contents.
    pub open spec fn over(&self, o: &Store) -> bool { *self == Store { heap: self.heap, ..*o } }
    /// Column c has the bytes v in k rows from row r on, and nothing else changed.
    pub open spec fn wrote(&self, o: &Store, c: int, r: int, k: int, v: Bits) -> bool {
        &&& self.over(o) && self.ok() && self.heap.gone == o.heap.gone
        &&& forall|d: int, q: int| -1 <= d < o.len() && 0 <= q < o.capacity ==>
            #[trigger] self.cell(d, q) == if d == c && r <= q < r + k { v.subrange((q - r) * o.size(c), (q - r) * o.size(c) + o.size(c)) } else { o.cell(d, q) }
    }
}

/// Where row r of a column is.
//@lemma
pub proof fn lemma_place_of_row(s: Store, c: int, r: int, k: int)
    requires s.ok(), -1 <= c < s.len(), 0 <= r, 0 <= k, r + k <= s.capacity
    ensures
        s.heap.has(s.blk(c), s.off(c) + r * s.size(c), k * s.size(c)),
        s.heap.aligned(s.blk(c), s.off(c) + r * s.size(c), s.align(c)),
        0 <= r * s.size(c) <= 0x7fff_ffff_ffff, 0 <= k * s.size(c) <= 0x7fff_ffff_ffff,
        !s.used(c) ==> r * s.size(c) == 0 && k * s.size(c) == 0,
        s.used(c) ==> s.blk(c) >= 0 && s.off(c) == 0,
        s.size(c) >= 0, s.align(c) > 0, s.size(c) <= 65535, s.align(c) <= 65535,
{
    reveal(Store::laid_out); reveal(Store::even_log);
    assert(s.column_ok(s.full(), c));
    let (z, a) = (s.size(c), s.align(c));
    if c >= 0 { assert(described(s.descriptor.parts()[c])); }
    assert(z % a == 0 && a > 0) by { if c >= 0 { vstd::arithmetic::power2::lemma_pow2_pos(0); } }
    assert((r * z) % a == 0) by {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(z, a);
        let q = z / a;
        assert(r * z == (r * q) * a) by (nonlinear_arith) requires z == a * q;
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(r * q, a);
    }
    assert(0 <= r * z && 0 <= k * z && r * z + k * z <= s.capacity * z && (r + k) * z <= 0xff_ffff * 0xffff) by (nonlinear_arith)
        requires 0 <= r, 0 <= k, 0 <= z <= 65535, r + k <= s.capacity, s.capacity <= 0xff_ffff;
    assert((r + k) * z == r * z + k * z) by (nonlinear_arith);
    if !s.used(c) {
        assert(r * z == 0 && k * z == 0) by (nonlinear_arith) requires 0 <= r, 0 <= k, r + k <= s.capacity, s.capacity == 0 || z == 0, 0 <= z;
        assert(a % a == 0) by (nonlinear_arith) requires a > 0;
    } else {
        assert(a % a == 0) by (nonlinear_arith) requires a > 0;
    }
}
/// Writing k rows of one column.
//@lemma
pub proof fn lemma_put(s: Store, t: Store, c: int, r: int, k: int, v: Bits)
    requires s.ok(), t.over(&s), -1 <= c < s.len(), 0 <= r, 0 <= k, r + k <= s.capacity, v.len() == k * s.size(c),
        t.heap == s.heap.with(s.blk(c), s.off(c) + r * s.size(c), v)
    ensures t.wrote(&s, c, r, k, v)
{
    lemma_place_of_row(s, c, r, k);
    assert(t.ok()) by {
        reveal(Store::laid_out); reveal(Store::even_log);
        assert forall|d: int| -1 <= d < t.len() implies #[trigger] t.column_ok(t.full(), d) by { assert(s.column_ok(s.full(), d)); assert(s.used(c) == t.used(c)); assert(s.used(d) == t.used(d)); }
        assert forall|b: int| t.heap.blocks.contains_key(b) implies #[trigger] t.owns(t.full(), b) by {
            if v.len() > 0 { assert(s.heap.blocks.contains_key(s.blk(c))); }
            assert(s.owns(s.full(), b));
            let d = choose|d: int| -1 <= d < s.len() && #[trigger] s.used_at(s.full(), d) && s.blk(d) == b;
            assert(t.used(d) && t.blk(d) == b);
        }
        assert forall|d: int, e: int| -1 <= d < e < t.len() && #[trigger] t.used_at(t.full(), d) && #[trigger] t.used_at(t.full(), e) implies t.blk(d) != t.blk(e) by { assert(s.used(d) && s.used(e)); }
        assert forall|d: int| 0 <= d < t.len() implies t.heap.gone.contains_key(#[trigger] t.id(d)) && t.heap.gone[t.id(d)].len() == t.logged() by { assert(s.id(d) == t.id(d)); }
    }
    assert forall|d: int, q: int| -1 <= d < s.len() && 0 <= q < s.capacity implies
        #[trigger] t.cell(d, q) == if d == c && r <= q < r + k { v.subrange((q - r) * s.size(c), (q - r) * s.size(c) + s.size(c)) } else { s.cell(d, q) } by {
        lemma_place_of_row(s, d, q, 1);
        reveal(Store::laid_out); reveal(Store::even_log);
        assert(s.column_ok(s.full(), d) && s.column_ok(s.full(), c));
        let z = s.size(d);
        assert(1 * z == z) by (nonlinear_arith);
        if v.len() > 0 {
            assert(s.used(c));
            if d == c {
                let zz = s.size(c);
                assert((q - r) * zz == q * zz - r * zz) by (nonlinear_arith);
                if r <= q < r + k {
                    assert((q - r) * zz + zz <= k * zz) by (nonlinear_arith) requires r <= q, q + 1 <= r + k, zz >= 0;
                    assert(0 <= (q - r) * zz) by (nonlinear_arith) requires r <= q, zz >= 0;
                    assert(t.cell(d, q) =~= v.subrange((q - r) * zz, (q - r) * zz + zz));
                } else if q < r {
                    assert(q * zz + zz <= r * zz) by (nonlinear_arith) requires q + 1 <= r, zz >= 0;
                    assert(t.cell(d, q) =~= s.cell(d, q));
                } else {
                    assert(q * zz >= r * zz + k * zz) by (nonlinear_arith) requires q >= r + k, zz >= 0;
                    assert(t.cell(d, q) =~= s.cell(d, q));
                }
            } else {
                if z > 0 { assert(s.used(d)); assert(s.blk(c) != s.blk(d)) by { if c < d { assert(s.used(c) && s.used(d)); } else { assert(s.used(d) && s.used(c)); } } }
                assert(t.cell(d, q) =~= s.cell(d, q));
            }
        } else {
            assert(t.cell(d, q) == s.cell(d, q));
            if d == c && r <= q < r + k {
                assert(s.size(c) == 0) by (nonlinear_arith) requires k * s.size(c) == 0, k > 0;
                assert((q - r) * s.size(c) == 0) by (nonlinear_arith) requires s.size(c) == 0;
                assert(v =~= Seq::empty());
                assert(t.cell(d, q) =~= v.subrange(0, 0));
            }
        }
    }
}
/// Writing one cell.
//@lemma
pub proof fn lemma_put_cell(s: Store, t: Store, c: int, r: int, v: Bits)
    requires s.ok(), t.over(&s), -1 <= c < s.len(), 0 <= r < s.capacity, v.len() == s.size(c), t.heap == s.heap.with(s.blk(c), s.off(c) + r * s.size(c), v)
    ensures t.ok(), t.heap.gone == s.heap.gone, forall|d: int, q: int| -1 <= d < s.len() && 0 <= q < s.capacity ==> #[trigger] t.cell(d, q) == if d == c && r == q { v } else { s.cell(d, q) }
{
    assert(1 * s.size(c) == s.size(c)) by (nonlinear_arith);
    assert(0 * s.size(c) == 0) by (nonlinear_arith);
    lemma_put(s, t, c, r, 1, v);
    assert(v.subrange(0, s.size(c)) =~= v);
}
//@lemma
pub proof fn lemma_col(s: Store, c: int)
    requires s.descriptor.ok(), 0 <= c < s.len()
    ensures s.col(s.id(c)) == c, s.descriptor.set().contains(s.id(c)), s.descriptor.ids().len() == s.len()
{
    let ids = s.descriptor.ids();
    assert(ids.contains(ids[c]));
    let j = ids.index_of(ids[c]);
    if j < c { assert(ids[j] < ids[c]); } else if c < j { assert(ids[c] < ids[j]); }
}
/// Contents by row and type.
//@lemma
pub proof fn lemma_cells(s: Store)
    requires s.ok()
    ensures s.cells().len() == s.capacity, s.handles().len() == s.capacity,
        forall|r: int| 0 <= r < s.capacity ==> (#[trigger] s.cells()[r]).dom().subset_of(s.descriptor.set()),
        forall|r: int, id: u16| 0 <= r < s.capacity ==> #[trigger] s.cells()[r].contains_key(id) == (s.descriptor.set().contains(id) && valid_bits(id, s.cell(s.col(id), r))),
        forall|r: int, id: u16| 0 <= r < s.capacity && s.cells()[r].contains_key(id) ==> #[trigger] s.cells()[r][id] == s.cell(s.col(id), r),
        forall|r: int| 0 <= r < s.capacity ==> #[trigger] s.handles()[r] == unraw::<Entity>(s.cell(-1, r)),
        forall|id: u16| s.descriptor.set().contains(id) ==> 0 <= #[trigger] s.col(id) < s.len() && s.id(s.col(id)) == id,
        s.descriptor.ok(), 0 <= s.capacity <= MAXE(), s.pointers.len() == 14, s.descriptor.ids().len() == s.len(),
{
    reveal(Store::laid_out); reveal(Store::even_log);
    reveal(Store::cells);
    reveal(Store::handles);
}
/// Only the log of the stores decides which rows were destroyed.
//@lemma
pub proof fn lemma_drops(s: Store, t: Store)
    requires s.heap.gone == t.heap.gone, s.descriptor == t.descriptor
    ensures s.drops() == t.drops()
{
    reveal(Store::drops);
    assert(s.drops() =~= t.drops());
}

/// b2 in place of b1: a block (none, if it is empty) resized, moved or given back.
pub open spec fn resized(o: Heap, b1: int, n1: int, h: Heap, p: Ptr<u8>, n2: int, align: int) -> bool {
    let left = if n1 > 0 { o.blocks.remove(b1) } else { o.blocks };
    &&& h.gone == o.gone
    &&& if n2 == 0 { p.dangles(align) && h.blocks == left } else {
            &&& p.block() >= 0 && p.off() == 0 && !left.contains_key(p.block())
            &&& h.blocks.contains_key(p.block()) && h.blocks == left.insert(p.block(), h.blocks[p.block()])
            &&& h.blocks[p.block()].align == align && h.blocks[p.block()].bytes.len() == n2
            &&& forall|i: int| 0 <= i < n1 && i < n2 ==> #[trigger] h.blocks[p.block()].bytes[i] == o.blocks[b1].bytes[i]
        }
}
/// A column given room for m rows.
pub open spec fn recap(s: Store, t: Store, caps: Seq<int>, c: int, p: Ptr<u8>, m: int) -> bool {
    &&& t.descriptor == s.descriptor
    &&& if c < 0 { t.ents.block() == p.block() && t.ents.off() == p.off() && t.pointers == s.pointers } else { t.pointers =~= s.pointers.update(c, p) && t.ents == s.ents }
    &&& resized(s.heap, s.blk(c), caps[c + 1] * s.size(c), t.heap, p, m * s.size(c), s.align(c))
}
//@lemma
pub proof fn lemma_recap(s: Store, t: Store, caps: Seq<int>, c: int, p: Ptr<u8>, m: int)
    requires s.laid_out(caps), -1 <= c < s.len(), 0 <= m <= MAXE(), recap(s, t, caps, c, p, m)
    ensures t.laid_out(caps.update(c + 1, m)),
        forall|d: int, q: int| -1 <= d < s.len() && 0 <= q < caps[d + 1] && (d == c ==> q < m) ==> #[trigger] t.cell(d, q) == s.cell(d, q),
{
    reveal(Store::laid_out);
    let caps2 = caps.update(c + 1, m);
    if c >= 0 { assert(described(s.descriptor.parts()[c])); }
    assert(s.column_ok(caps, c));
    assert(caps[c + 1] >= 0);
    let z = s.size(c);
    assert((m * z > 0) == (m > 0 && z > 0)) by (nonlinear_arith) requires m >= 0, z >= 0;
    assert((caps[c + 1] * z > 0) == (caps[c + 1] > 0 && z > 0)) by (nonlinear_arith) requires caps[c + 1] >= 0, z >= 0;
    assert(m * z >= 0) by (nonlinear_arith) requires m >= 0, z >= 0;
    assert forall|d: int| -1 <= d < s.len() && d != c implies t.blk(d) == s.blk(d) && t.off(d) == s.off(d) by {}
    assert(t.blk(c) == p.block() && t.off(c) == p.off());
    assert forall|d: int| -1 <= d < s.len() && d != c && s.used_at(caps, d) implies (s.used_at(caps, c) ==> s.blk(d) != s.blk(c)) by { if c < d { assert(s.used_at(caps, c) ==> s.blk(c) != s.blk(d)); } else { assert(s.used_at(caps, c) ==> s.blk(d) != s.blk(c)); } }
    assert forall|d: int| -1 <= d < t.len() implies #[trigger] t.column_ok(caps2, d) && 0 <= caps2[d + 1] <= MAXE() by {
        assert(0 <= caps[d + 1] <= MAXE());
        assert(s.column_ok(caps, d));
        if d != c && s.used_at(caps, d) { assert(t.used_at(caps2, d)); if m * z > 0 { assert(p.block() != s.blk(d)); } }
    }
    assert forall|d: int, e: int| -1 <= d < e < t.len() && #[trigger] t.used_at(caps2, d) && #[trigger] t.used_at(caps2, e) implies t.blk(d) != t.blk(e) by {
        if d != c { assert(s.used_at(caps, d)); assert(s.column_ok(caps, d)); }
        if e != c { assert(s.used_at(caps, e)); assert(s.column_ok(caps, e)); }
    }
    assert forall|b: int| t.heap.blocks.contains_key(b) implies #[trigger] t.owns(caps2, b) by {
        if m * z > 0 && b == p.block() { assert(t.used_at(caps2, c)); } else {
            assert(s.heap.blocks.contains_key(b));
            assert(s.owns(caps, b));
            let d = choose|d: int| -1 <= d < s.len() && #[trigger] s.used_at(caps, d) && s.blk(d) == b;
            assert(d != c);
            assert(t.used_at(caps2, d));
        }
    }
    assert forall|d: int, q: int| -1 <= d < s.len() && 0 <= q < caps[d + 1] && (d == c ==> q < m) implies #[trigger] t.cell(d, q) == s.cell(d, q) by {
        assert(s.column_ok(caps, d));
        let y = s.size(d);
        if y > 0 {
            assert(s.used_at(caps, d));
            assert(0 <= q * y && q * y + y <= caps[d + 1] * y) by (nonlinear_arith) requires 0 <= q, q + 1 <= caps[d + 1], y >= 0;
            if d == c { assert(q * y + y <= m * y) by (nonlinear_arith) requires q + 1 <= m, y >= 0; }
            assert(t.cell(d, q) =~= s.cell(d, q));
        }
    }
}
/// The fuller picture of one column, for the calls above.
//@lemma
pub proof fn lemma_column(s: Store, caps: Seq<int>, c: int)
    requires s.laid_out(caps), -1 <= c < s.len()
    ensures s.column_ok(caps, c), 0 <= caps[c + 1] <= MAXE(), s.size(c) >= 0, s.align(c) > 0, s.size(c) <= 65535, s.align(c) <= 65535, align_ok(s.align(c)),
        0 <= caps[c + 1] * s.size(c) <= 0xff_ffff * 0xffff, caps[c + 1] * s.size(c) > 0 <==> s.used_at(caps, c), s.descriptor.ok(), s.pointers.len() == 14,
        caps.len() == s.len() + 1,
{
    reveal(Store::laid_out);
    if c >= 0 { assert(described(s.descriptor.parts()[c])); } else { vstd::arithmetic::power2::lemma2_to64(); }
    assert(s.column_ok(caps, c));
    assert(caps[c + 1] >= 0);
    let (z, n) = (s.size(c), caps[c + 1]);
    assert(0 <= n * z <= 0xff_ffff * 0xffff) by (nonlinear_arith) requires 0 <= n <= 0xff_ffff, 0 <= z <= 0xffff;
    assert((n * z > 0) == (n > 0 && z > 0)) by (nonlinear_arith) requires n >= 0, z >= 0;
}
/// Reading n rows of some columns of a store through pointers to row r.
pub open spec fn into_store(s: Store, d: ArchetypeDescriptor, ptrs: Seq<Ptr<u8>>, r: int) -> bool {
    forall|i: int| #![trigger ptrs[i]] 0 <= i < d.len ==> ptrs[i].block() == s.blk(s.col(d.ids()[i])) && ptrs[i].off() == s.off(s.col(d.ids()[i])) + r * d.parts()[i].size
}
//@lemma
pub proof fn lemma_same_type(s: Store, d: ArchetypeDescriptor, i: int)
    requires s.descriptor.ok(), d.ok(), d.set().subset_of(s.descriptor.set()), 0 <= i < d.len
    ensures 0 <= s.col(d.ids()[i]) < s.len(), s.id(s.col(d.ids()[i])) == d.ids()[i], d.parts()[i] == s.descriptor.parts()[s.col(d.ids()[i])],
        d.parts()[i].id() == d.ids()[i], d.set().contains(d.ids()[i]), d.ids().index_of(d.ids()[i]) == i, described(d.parts()[i]),
        d.ids().len() == d.len, d.parts().len() == d.len,
{
    let x = d.ids()[i];
    assert(d.set().contains(x)) by { assert(d.ids().contains(x)); }
    assert(s.descriptor.set().contains(x));
    assert(s.descriptor.ids().contains(x));
    assert(described(d.parts()[i]));
    assert(described(s.descriptor.parts()[s.col(x)]));
    assert(s.descriptor.parts()[s.col(x)].id() == s.descriptor.ids()[s.col(x)]);
    let j = d.ids().index_of(x);
    if j < i { assert(d.ids()[j] < d.ids()[i]); } else if i < j { assert(d.ids()[i] < d.ids()[j]); }
}
//@lemma
pub proof fn lemma_pointing(s: Store, d: ArchetypeDescriptor, ptrs: Seq<Ptr<u8>>, r: int, n: int)
    requires s.ok(), d.ok(), d.set().subset_of(s.descriptor.set()), 0 <= r, 0 <= n, r + n <= s.capacity, into_store(s, d, ptrs, r), ptrs.len() == 14,
    ensures
        (forall|k: int| r <= k < r + n ==> d.set().subset_of((#[trigger] s.cells()[k]).dom())) ==> pointing(s.heap, d, ptrs, n)
            && (forall|k: int| 0 <= k < n ==> #[trigger] gathered(s.heap, d, ptrs, k, n) =~= s.cells()[r + k].restrict(d.set())),
        apart(d, ptrs, n),
{
    lemma_cells(s);
    assert forall|i: int| 0 <= i < d.len implies #[trigger] d.parts()[i] == s.descriptor.parts()[s.col(d.ids()[i])] && 0 <= s.col(d.ids()[i]) < s.len()
        && d.parts()[i].id() == d.ids()[i] && d.set().contains(d.ids()[i]) && s.id(s.col(d.ids()[i])) == d.ids()[i] by { lemma_same_type(s, d, i); }
    assert forall|i: int, k: int| 0 <= i < d.len && 0 <= k < n implies #[trigger] s.heap.values(d.parts()[i], ptrs[i].block(), ptrs[i].off(), n)[k] == s.cell(s.col(d.ids()[i]), r + k) by {
        let (c, z) = (s.col(d.ids()[i]), d.parts()[i].size as int);
        assert(ptrs[i].off() == s.off(c) + r * z);
        assert(r * z + k * z == (r + k) * z) by (nonlinear_arith);
    }
    assert forall|i: int| #![trigger ptrs[i]] 0 <= i < d.len implies {
        let p = d.parts()[i];
        &&& s.heap.has(ptrs[i].block(), ptrs[i].off(), n * p.size) && s.heap.aligned(ptrs[i].block(), ptrs[i].off(), p.align as int)
    } by {
        lemma_same_type(s, d, i);
        lemma_place_of_row(s, s.col(d.ids()[i]), r, n);
    }
    if forall|k: int| r <= k < r + n ==> d.set().subset_of((#[trigger] s.cells()[k]).dom()) {
        assert forall|i: int| #![trigger ptrs[i]] 0 <= i < d.len implies {
            let p = d.parts()[i];
            forall|k: int| 0 <= k < n ==> valid_bits(p.id(), #[trigger] s.heap.values(p, ptrs[i].block(), ptrs[i].off(), n)[k])
        } by {
            let p = d.parts()[i];
            assert forall|k: int| 0 <= k < n implies valid_bits(p.id(), #[trigger] s.heap.values(p, ptrs[i].block(), ptrs[i].off(), n)[k]) by {
                assert(d.set().subset_of(s.cells()[r + k].dom()));
                assert(s.cells()[r + k].contains_key(d.ids()[i]));
            }
        }
        assert forall|k: int| 0 <= k < n implies #[trigger] gathered(s.heap, d, ptrs, k, n) =~= s.cells()[r + k].restrict(d.set()) by {
            assert(d.set().subset_of(s.cells()[r + k].dom()));
            assert forall|id: u16| d.set().contains(id) implies #[trigger] gathered(s.heap, d, ptrs, k, n)[id] == s.cells()[r + k][id] by {
                let i = d.ids().index_of(id);
                assert(d.ids().contains(id));
                assert(d.ids()[i] == id);
                assert(d.parts()[i] == s.descriptor.parts()[s.col(d.ids()[i])]);
                assert(s.heap.values(d.parts()[i], ptrs[i].block(), ptrs[i].off(), n)[k] == s.cell(s.col(d.ids()[i]), r + k));
                assert(s.cells()[r + k].contains_key(id));
            }
        }
    }
    assert forall|i: int, j: int| #![trigger ptrs[i], ptrs[j]] 0 <= i < j < d.len && n * d.parts()[i].size > 0 && n * d.parts()[j].size > 0 implies ptrs[i].block() != ptrs[j].block() by {
        lemma_same_type(s, d, i); lemma_same_type(s, d, j);
        let (a, b) = (s.col(d.ids()[i]), s.col(d.ids()[j]));
        lemma_place_of_row(s, a, r, n); lemma_place_of_row(s, b, r, n);
        reveal(Store::laid_out);
        assert(d.ids()[i] < d.ids()[j]);
        assert(a != b);
        assert(s.used(a) && s.used(b));
        if a < b { assert(s.used_at(s.full(), a) && s.used_at(s.full(), b)); } else { assert(s.used_at(s.full(), b) && s.used_at(s.full(), a)); }
    }
}
/// Writing n rows of some columns.
//@lemma
pub proof fn lemma_scatter(s: Store, t: Store, d: ArchetypeDescriptor, ptrs: Seq<Ptr<u8>>, r: int, rows: Seq<Map<u16, Bits>>, vs: Seq<Bits>, i: int)
    requires s.ok(), d.ok(), d.set().subset_of(s.descriptor.set()), 0 <= r, r + rows.len() <= s.capacity, into_store(s, d, ptrs, r),
        0 <= i <= d.len, vs.len() == d.len, t.over(&s), t.heap == scattered(s.heap, ptrs, vs, i),
        forall|j: int| 0 <= j < d.len ==> column_of(rows, d, j, #[trigger] vs[j]),
    ensures t.ok(), t.heap.gone == s.heap.gone,
        forall|q: int| 0 <= q < s.capacity ==> #[trigger] t.cell(-1, q) == s.cell(-1, q),
        forall|c: int, q: int| 0 <= c < s.len() && 0 <= q < s.capacity ==> #[trigger] t.cell(c, q) ==
            if r <= q < r + rows.len() && d.set().contains(s.id(c)) && d.ids().index_of(s.id(c)) < i { rows[q - r][s.id(c)] } else { s.cell(c, q) },
    decreases i
{
    if i > 0 {
        let u = Store { heap: scattered(s.heap, ptrs, vs, i - 1), ..s };
        lemma_scatter(s, u, d, ptrs, r, rows, vs, i - 1);
        lemma_cells(s);
        lemma_same_type(s, d, i - 1);
        let c0 = s.col(d.ids()[i - 1]);
        assert(ptrs[i - 1].block() == s.blk(c0));
        assert(column_of(rows, d, i - 1, vs[i - 1]));
        lemma_put(u, t, c0, r, rows.len() as int, vs[i - 1]);
        assert forall|c: int, q: int| 0 <= c < s.len() && 0 <= q < s.capacity implies #[trigger] t.cell(c, q) ==
            if r <= q < r + rows.len() && d.set().contains(s.id(c)) && d.ids().index_of(s.id(c)) < i { rows[q - r][s.id(c)] } else { s.cell(c, q) } by {
            lemma_col(s, c);
            if c == c0 {
                if r <= q < r + rows.len() {
                    let k = q - r;
                    let z = d.parts()[i - 1].size as int;
                    assert(vs[i - 1].subrange(k * z, k * z + z) == rows[k][d.ids()[i - 1]]);
                }
            } else if d.set().contains(s.id(c)) {
                assert(d.ids().contains(s.id(c)));
                let j = d.ids().index_of(s.id(c));
                if j == i - 1 { assert(s.id(c) == s.id(c0)); assert(s.col(s.id(c)) == c); }
            }
        }
    }
}
/// In terms of rows.
//@lemma
pub proof fn lemma_overwrites(s: Store, t: Store, d: ArchetypeDescriptor, ptrs: Seq<Ptr<u8>>, r: int, rows: Seq<Map<u16, Bits>>)
    requires s.ok(), d.ok(), d.set().subset_of(s.descriptor.set()), 0 <= r, r + rows.len() <= s.capacity, into_store(s, d, ptrs, r),
        t.over(&s), overwrites(s.heap, t.heap, d, ptrs, rows),
    ensures t.ok(), t.handles() == s.handles(), t.drops() == s.drops(),
        t.cells() == Seq::new(s.cells().len(), |q: int| if r <= q < r + rows.len() { overwritten(s.cells()[q], rows[q - r], d.set()) } else { s.cells()[q] }),
{
    let vs = choose|vs: Seq<Bits>| #[trigger] scattered(s.heap, ptrs, vs, d.len as int) == t.heap && vs.len() == d.len
            && forall|i: int| 0 <= i < d.len ==> column_of(rows, d, i, #[trigger] vs[i]);
    lemma_scatter(s, t, d, ptrs, r, rows, vs, d.len as int);
    lemma_drops(s, t);
    lemma_cells(s);
    lemma_cells(t);
    assert(t.handles() =~= s.handles());
    let w = Seq::new(s.cells().len(), |q: int| if r <= q < r + rows.len() { overwritten(s.cells()[q], rows[q - r], d.set()) } else { s.cells()[q] });
    assert forall|q: int| 0 <= q < s.capacity implies #[trigger] t.cells()[q] =~= w[q] by {
        assert forall|id: u16| t.cells()[q].contains_key(id) == w[q].contains_key(id) && (t.cells()[q].contains_key(id) ==> #[trigger] t.cells()[q][id] == w[q][id]) by {
            if s.descriptor.set().contains(id) {
                let c = s.col(id);
                assert(s.id(c) == id && t.col(id) == c);
                assert(t.cells()[q].contains_key(id) == valid_bits(id, t.cell(c, q)));
                assert(s.cells()[q].contains_key(id) == valid_bits(id, s.cell(c, q)));
                if r <= q < r + rows.len() && d.set().contains(id) {
                    let i = d.ids().index_of(id);
                    assert(d.ids().contains(id));
                    assert(full_row(d, rows[q - r]));
                    assert(d.ids()[i] == id);
                    assert(d.parts()[i].id() == id);
                }
            }
        }
    }
    assert(t.cells() =~= w);
}
/// The same columns except for one row.
//@lemma
pub proof fn lemma_row_written(s: Store, t: Store, r: int, m: Map<u16, Bits>)
    requires s.ok(), t.ok(), t.over(&s), t.heap.gone == s.heap.gone, 0 <= r < s.capacity,
        forall|c: int, q: int| 0 <= c < s.len() && 0 <= q < s.capacity && q != r ==> #[trigger] t.cell(c, q) == s.cell(c, q),
        m.dom().subset_of(s.descriptor.set()),
        forall|c: int| 0 <= c < s.len() ==> valid_bits(s.id(c), #[trigger] t.cell(c, r)) == m.contains_key(s.id(c)) && (m.contains_key(s.id(c)) ==> t.cell(c, r) == m[s.id(c)]),
    ensures t.cells() == s.cells().update(r, m), t.drops() == s.drops(),
        (forall|q: int| 0 <= q < s.capacity ==> #[trigger] t.cell(-1, q) == s.cell(-1, q)) ==> t.handles() == s.handles(),
{
    lemma_drops(s, t);
    lemma_cells(s);
    lemma_cells(t);
    if forall|q: int| 0 <= q < s.capacity ==> #[trigger] t.cell(-1, q) == s.cell(-1, q) { assert(t.handles() =~= s.handles()); }
    let w = s.cells().update(r, m);
    assert forall|q: int| 0 <= q < s.capacity implies #[trigger] t.cells()[q] =~= w[q] by {
        assert forall|id: u16| t.cells()[q].contains_key(id) == w[q].contains_key(id) && (t.cells()[q].contains_key(id) ==> #[trigger] t.cells()[q][id] == w[q][id]) by {
            if s.descriptor.set().contains(id) {
                let c = s.col(id);
                assert(s.id(c) == id && t.col(id) == c);
                assert(t.cells()[q].contains_key(id) == valid_bits(id, t.cell(c, q)));
                assert(s.cells()[q].contains_key(id) == valid_bits(id, s.cell(c, q)));
            } else {
                assert(!m.contains_key(id));
            }
        }
    }
    assert(t.cells() =~= w);
}
/// Every column the same but for the order of the rows: two exchanged.
//@lemma
pub proof fn lemma_rows_swapped(s: Store, t: Store, i: int, j: int)
    requires s.ok(), t.ok(), t.over(&s), t.heap.gone == s.heap.gone, 0 <= i < s.capacity, 0 <= j < s.capacity,
        forall|c: int, q: int| 0 <= c < s.len() && 0 <= q < s.capacity ==> #[trigger] t.cell(c, q) == s.cell(c, if q == i { j } else if q == j { i } else { q }),
    ensures t.cells() == swapped(s.cells(), i, j), t.drops() == s.drops(),
{
    lemma_drops(s, t);
    lemma_cells(s);
    lemma_cells(t);
    let w = swapped(s.cells(), i, j);
    assert forall|q: int| 0 <= q < s.capacity implies #[trigger] t.cells()[q] =~= w[q] by {
        let p = if q == i { j } else if q == j { i } else { q };
        assert(w[q] == s.cells()[p]);
        assert forall|id: u16| t.cells()[q].contains_key(id) == w[q].contains_key(id) && (t.cells()[q].contains_key(id) ==> #[trigger] t.cells()[q][id] == w[q][id]) by {
            assert(t.col(id) == s.col(id));
            if s.descriptor.set().contains(id) { assert(t.cell(s.col(id), q) == s.cell(s.col(id), p)); }
            assert(s.cells()[p].contains_key(id) == (s.descriptor.set().contains(id) && valid_bits(id, s.cell(s.col(id), p))));
            assert(t.cells()[q].contains_key(id) == (s.descriptor.set().contains(id) && valid_bits(id, t.cell(s.col(id), q))));
        }
    }
    assert(t.cells() =~= w);
}
/// Handles written.
//@lemma
pub proof fn lemma_handles_written(s: Store, t: Store, n: int, v: Bits, hs: Seq<Entity>)
    requires s.ok(), t.over(&s), 0 <= n <= s.capacity, hs.len() == n, of_handles(v, hs), t.heap == s.heap.with(s.ents.block(), s.ents.off(), v),
    ensures t.ok(), t.cells() == s.cells(), t.drops() == s.drops(), t.handles() == hs + s.handles().skip(n), s.handles().len() == s.capacity
{
    assert(0 * s.size(-1) == 0) by (nonlinear_arith);
    lemma_put(s, t, -1, 0, n, v);
    lemma_cells(s);
    lemma_cells(t);
    lemma_drops(s, t);
    assert forall|q: int| 0 <= q < s.capacity implies #[trigger] t.cells()[q] =~= s.cells()[q] by {
        assert forall|id: u16| t.cells()[q].contains_key(id) == s.cells()[q].contains_key(id) && (t.cells()[q].contains_key(id) ==> #[trigger] t.cells()[q][id] == s.cells()[q][id]) by {
            assert(t.col(id) == s.col(id));
            if s.descriptor.set().contains(id) { assert(t.cell(s.col(id), q) == s.cell(s.col(id), q)); }
        }
    }
    assert(t.cells() =~= s.cells());
    let w = hs + s.handles().skip(n);
    assert forall|q: int| 0 <= q < s.capacity implies #[trigger] t.handles()[q] == w[q] by {
        if q < n { assert(raw(hs[q]) == v.subrange(4 * q, 4 * q + 4)); axiom_raw(hs[q]); assert(t.cell(-1, q) == v.subrange((q - 0) * 4, (q - 0) * 4 + 4)); }
        else { assert(w[q] == s.handles()[q]); assert(t.cell(-1, q) == s.cell(-1, q)); }
    }
    assert(t.handles() =~= w);
}
//@lemma
pub proof fn lemma_handle_column(s: Store, n: int)
    requires s.ok(), 0 <= n <= s.capacity
    ensures s.heap.has(s.ents.block(), s.ents.off(), 4 * n), s.heap.aligned(s.ents.block(), s.ents.off(), 4),
        s.handles().len() == s.capacity,
        forall|i: int, e: Entity| 0 <= i < n && raw(e) == s.heap.at(s.ents.block(), s.ents.off() + 4 * i, 4) ==> e == #[trigger] s.handles()[i] && #[trigger] raw(e) == raw(e)
{
    lemma_place_of_row(s, -1, 0, n);
    lemma_cells(s);
    assert forall|i: int, e: Entity| 0 <= i < n && raw(e) == s.heap.at(s.ents.block(), s.ents.off() + 4 * i, 4) implies e == #[trigger] s.handles()[i] && #[trigger] raw(e) == raw(e) by {
        axiom_raw(e);
        assert(s.cell(-1, i) == s.heap.at(s.ents.block(), s.ents.off() + 4 * i, 4));
    }
}
/// A block of these dimensions (none, if it is empty).
pub open spec fn holds(h: Heap, p: Ptr<u8>, n: int, align: int) -> bool {
    n > 0 ==> p.off() == 0 && p.block() >= 0 && h.blocks.contains_key(p.block()) && h.blocks[p.block()].bytes.len() == n && h.blocks[p.block()].align == align
}
/// The values of k rows of column c.
pub open spec fn column(o: Store, c: int, r: int, k: int) -> Seq<Bits> { Seq::new(k as nat, |j: int| o.cell(c, r + j)) }
/// t is u, with the destructors of k rows of o run.
pub open spec fn ran(o: Store, u: Store, t: Store, r: int, k: int, c: int) -> bool {
    &&& u.ok() && u.over(&o) && u.heap.gone == o.heap.gone && t == Store { heap: Heap { gone: t.heap.gone, ..u.heap }, ..u }
    &&& forall|d: int| 0 <= d < o.len() ==> t.heap.gone.contains_key(o.id(d)) && #[trigger] t.heap.gone[o.id(d)]
            == if d < c { o.heap.gone[o.id(d)] + column(o, d, r, k) } else { o.heap.gone[o.id(d)] }
    &&& forall|d: int, q: int| -1 <= d < o.len() && 0 <= q < o.capacity && !(r <= q < r + k) ==> #[trigger] u.cell(d, q) == o.cell(d, q)
    &&& forall|d: int, q: int| c <= d < o.len() && 0 <= q < o.capacity ==> #[trigger] u.cell(d, q) == o.cell(d, q)
    &&& forall|q: int| 0 <= q < o.capacity ==> #[trigger] u.cell(-1, q) == o.cell(-1, q)
}
pub open spec fn with_log(s: Store, g: Map<u16, Seq<Bits>>) -> Store { Store { heap: Heap { gone: g, ..s.heap }, ..s } }
/// One more column.
//@lemma
pub proof fn lemma_ran(o: Store, t: Store, w: Store, r: int, k: int, c: int, v: Bits)
    requires o.ok(), ran(o, with_log(t, o.heap.gone), t, r, k, c), 0 <= c < o.len(), 0 <= r, 0 <= k, r + k <= o.capacity, v.len() == k * o.size(c),
        w.over(&t), w.heap.blocks == t.heap.with(t.blk(c), t.off(c) + r * t.size(c), v).blocks,
        w.heap.gone == t.heap.gone.insert(o.id(c), t.heap.gone[o.id(c)] + t.heap.values(o.descriptor.parts()[c], t.blk(c), t.off(c) + r * t.size(c), k)),
    ensures ran(o, with_log(w, o.heap.gone), w, r, k, c + 1)
{
    let (a, b) = (with_log(t, o.heap.gone), with_log(w, o.heap.gone));
    lemma_cells(o);
    assert(b.heap == a.heap.with(a.blk(c), a.off(c) + r * a.size(c), v));
    lemma_put(a, b, c, r, k, v);
    assert(b.over(&o));
    assert(w == Store { heap: Heap { gone: w.heap.gone, ..b.heap }, ..b });
    assert(t.heap.values(o.descriptor.parts()[c], t.blk(c), t.off(c) + r * t.size(c), k) =~= column(o, c, r, k)) by {
        assert forall|j: int| 0 <= j < k implies #[trigger] t.heap.values(o.descriptor.parts()[c], t.blk(c), t.off(c) + r * t.size(c), k)[j] == o.cell(c, r + j) by {
            let z = o.size(c);
            assert(r * z + j * z == (r + j) * z) by (nonlinear_arith);
            assert(a.cell(c, r + j) == o.cell(c, r + j));
        }
    }
    assert forall|d: int| 0 <= d < o.len() implies w.heap.gone.contains_key(o.id(d)) && #[trigger] w.heap.gone[o.id(d)]
            == if d < c + 1 { o.heap.gone[o.id(d)] + column(o, d, r, k) } else { o.heap.gone[o.id(d)] } by {
        lemma_col(o, c); lemma_col(o, d);
        assert(t.heap.gone[o.id(d)] == if d < c { o.heap.gone[o.id(d)] + column(o, d, r, k) } else { o.heap.gone[o.id(d)] });
    }
    assert forall|d: int| 0 <= d < o.len() implies w.heap.gone.contains_key(#[trigger] o.id(d)) by { let x = w.heap.gone[o.id(d)]; }
    assert forall|d: int| 0 <= d < o.len() implies w.heap.gone[#[trigger] o.id(d)]
            == if d < c + 1 { o.heap.gone[o.id(d)] + column(o, d, r, k) } else { o.heap.gone[o.id(d)] } by { let x = w.heap.gone[o.id(d)]; }
    assert forall|d: int, q: int| -1 <= d < o.len() && 0 <= q < o.capacity && !(r <= q < r + k) implies #[trigger] b.cell(d, q) == o.cell(d, q) by { assert(a.cell(d, q) == o.cell(d, q)); }
    assert forall|d: int, q: int| c + 1 <= d < o.len() && 0 <= q < o.capacity implies #[trigger] b.cell(d, q) == o.cell(d, q) by { assert(a.cell(d, q) == o.cell(d, q)); }
    assert forall|q: int| 0 <= q < o.capacity implies #[trigger] b.cell(-1, q) == o.cell(-1, q) by { assert(a.cell(-1, q) == o.cell(-1, q)); }
}
/// All columns.
//@lemma
pub proof fn lemma_all_ran(o: Store, t: Store, r: int, k: int)
    requires o.ok(), ran(o, with_log(t, o.heap.gone), t, r, k, o.len()), 0 <= r, 0 <= k, r + k <= o.capacity,
        forall|q: int| r <= q < r + k ==> (#[trigger] o.cells()[q]).dom() =~= o.descriptor.set(),
    ensures t.ok(), t.handles() == o.handles(), t.drops() == o.drops() + o.cells().subrange(r, r + k), t.cells().len() == o.capacity,
        forall|q: int| 0 <= q < o.capacity && !(r <= q < r + k) ==> #[trigger] t.cells()[q] == o.cells()[q],
        forall|q: int| 0 <= q < o.capacity ==> (#[trigger] t.cells()[q]).dom().subset_of(o.descriptor.set()),
{
    let u = with_log(t, o.heap.gone);
    lemma_cells(o);
    lemma_cells(u);
    assert(t.ok()) by {
        reveal(Store::laid_out); reveal(Store::even_log);
        assert forall|d: int| -1 <= d < t.len() implies #[trigger] t.column_ok(t.full(), d) by { assert(u.column_ok(u.full(), d)); assert(u.used(d) == t.used(d)); }
        assert forall|b: int| t.heap.blocks.contains_key(b) implies #[trigger] t.owns(t.full(), b) by {
            assert(u.owns(u.full(), b));
            let d = choose|d: int| -1 <= d < u.len() && #[trigger] u.used_at(u.full(), d) && u.blk(d) == b;
            assert(t.used(d) && t.blk(d) == b);
        }
        assert forall|d: int, e: int| -1 <= d < e < t.len() && #[trigger] t.used_at(t.full(), d) && #[trigger] t.used_at(t.full(), e) implies t.blk(d) != t.blk(e) by { assert(u.used(d) && u.used(e)); }
        assert forall|d: int| 0 <= d < t.len() implies t.heap.gone.contains_key(#[trigger] t.id(d)) && t.heap.gone[t.id(d)].len() == t.logged() by {
            assert(o.heap.gone.contains_key(o.id(d)) && o.heap.gone.contains_key(o.id(0)));
            assert(t.heap.gone[o.id(d)].len() == o.heap.gone[o.id(d)].len() + k);
            assert(t.heap.gone[o.id(0)].len() == o.heap.gone[o.id(0)].len() + k);
        }
    }
    lemma_cells(t);
    assert(t.handles() =~= o.handles()) by {
        assert forall|q: int| 0 <= q < o.capacity implies #[trigger] t.handles()[q] == o.handles()[q] by { assert(u.cell(-1, q) == o.cell(-1, q)); assert(t.cell(-1, q) == u.cell(-1, q)); }
    }
    assert forall|q: int| 0 <= q < o.capacity && !(r <= q < r + k) implies #[trigger] t.cells()[q] == o.cells()[q] by {
        assert forall|id: u16| t.cells()[q].contains_key(id) == o.cells()[q].contains_key(id) && (t.cells()[q].contains_key(id) ==> #[trigger] t.cells()[q][id] == o.cells()[q][id]) by {
            assert(t.col(id) == o.col(id));
            assert(t.cells()[q].contains_key(id) == (t.descriptor.set().contains(id) && valid_bits(id, t.cell(t.col(id), q))));
            assert(o.cells()[q].contains_key(id) == (o.descriptor.set().contains(id) && valid_bits(id, o.cell(o.col(id), q))));
            if o.descriptor.set().contains(id) { assert(u.cell(o.col(id), q) == o.cell(o.col(id), q)); assert(t.cell(o.col(id), q) == u.cell(o.col(id), q)); }
        }
        assert(t.cells()[q].dom() =~= o.cells()[q].dom()) by {
            assert forall|id: u16| t.cells()[q].dom().contains(id) == o.cells()[q].dom().contains(id) by { let x = t.cells()[q][id]; assert(t.cells()[q].contains_key(id) == o.cells()[q].contains_key(id)); }
        }
        assert(t.cells()[q] =~= o.cells()[q]);
    }
    let w = o.drops() + o.cells().subrange(r, r + k);
    reveal(Store::even_log); reveal(Store::drops);
    assert(t.heap.gone[o.id(0)].len() == o.heap.gone[o.id(0)].len() + k);
    assert(t.drops().len() == w.len());
    assert forall|j: int| 0 <= j < w.len() implies #[trigger] t.drops()[j] =~= w[j] by {
        assert(t.drops()[j].dom() =~= o.descriptor.set());
        if j >= o.drops().len() { let q = r + j - o.drops().len(); assert(w[j] == o.cells()[q]); assert(o.cells()[q].dom() =~= o.descriptor.set()); }
        assert(w[j].dom() =~= o.descriptor.set());
        assert forall|id: u16| o.descriptor.set().contains(id) implies #[trigger] t.drops()[j][id] == w[j][id] by {
            let c = o.col(id);
            assert(o.id(c) == id);
            assert(o.heap.gone[o.id(c)].len() == o.logged());
            assert(t.heap.gone[o.id(c)] == o.heap.gone[o.id(c)] + column(o, c, r, k));
            if j >= o.drops().len() { let q = r + j - o.drops().len(); assert(o.cells()[q].contains_key(id)); assert(o.cells()[q][id] == o.cell(o.col(id), q)); }
        }
    }
    assert(t.drops() =~= w);
}
//@lemma
pub proof fn lemma_nothing_ran(o: Store, r: int, k: int)
    requires o.ok()
    ensures ran(o, with_log(o, o.heap.gone), o, r, k, 0)
{
    reveal(Store::even_log);
    assert forall|d: int| 0 <= d < o.len() implies o.heap.gone.contains_key(o.id(d)) && #[trigger] o.heap.gone[o.id(d)] == o.heap.gone[o.id(d)] by {}
}
//@lemma
pub proof fn lemma_may_run(o: Store, s: Store, r: int, k: int, c: int)
    requires o.ok(), ran(o, with_log(s, o.heap.gone), s, r, k, c), 0 <= c < o.len(), 0 <= r, 0 <= k, r + k <= o.capacity,
        forall|q: int| r <= q < r + k ==> (#[trigger] o.cells()[q]).dom() =~= o.descriptor.set(),
    ensures s.heap.has(s.blk(c), s.off(c) + r * s.size(c), k * s.size(c)), s.heap.aligned(s.blk(c), s.off(c) + r * s.size(c), s.align(c)),
        described(o.descriptor.parts()[c]), s.heap.gone.contains_key(o.id(c)), o.pointers.len() == 14, o.descriptor.parts().len() == o.len() <= 14,
        0 <= r * s.size(c) <= 0x7fff_ffff_ffff, s.blk(c) < 0 ==> r * s.size(c) == 0, 0 * s.size(c) == 0, 1 * s.size(c) == s.size(c),
        forall|j: int| 0 <= j < k ==> valid_bits(o.id(c), #[trigger] s.heap.values(o.descriptor.parts()[c], s.blk(c), s.off(c) + r * s.size(c), k)[j]),
{
    let u = with_log(s, o.heap.gone);
    lemma_place_of_row(u, c, r, k);
    lemma_cells(o);
    lemma_col(o, c);
    assert(1 * s.size(c) == s.size(c)) by (nonlinear_arith);
    assert(0 * s.size(c) == 0) by (nonlinear_arith);
    assert(s.heap.gone[o.id(c)] == s.heap.gone[o.id(c)]);
    assert(u.used(c) ==> u.blk(c) >= 0);
    assert forall|j: int| 0 <= j < k implies valid_bits(o.id(c), #[trigger] s.heap.values(o.descriptor.parts()[c], s.blk(c), s.off(c) + r * s.size(c), k)[j]) by {
        let z = s.size(c);
        assert(r * z + j * z == (r + j) * z) by (nonlinear_arith);
        assert(u.cell(c, r + j) == o.cell(c, r + j));
        assert(o.cells()[r + j].dom() =~= o.descriptor.set());
        assert(o.cells()[r + j].contains_key(o.id(c)));
    }
}
//@lemma
pub proof fn lemma_same_types(s: Store, d: ArchetypeDescriptor)
    requires s.descriptor.ok(), d.ok(), d.ids() == s.descriptor.ids()
    ensures d.parts() == s.descriptor.parts(), d.set() == s.descriptor.set(), d.len == s.descriptor.len
{
    assert(d.ids().len() == s.descriptor.ids().len());
    assert(d.components@.len() == 14 && s.descriptor.components@.len() == 14);
    assert(d.parts().len() == d.len && s.descriptor.parts().len() == s.descriptor.len);
    assert(d.ids().len() == d.len && s.descriptor.ids().len() == s.descriptor.len);
    assert(d.len == s.descriptor.len);
    assert forall|i: int| 0 <= i < d.len implies #[trigger] d.parts()[i] == s.descriptor.parts()[i] by {
        assert(described(d.parts()[i]));
        assert(described(s.descriptor.parts()[i]));
        assert(d.ids()[i] == s.descriptor.ids()[i]);
        assert(d.parts()[i].id() == d.ids()[i] && s.descriptor.parts()[i].id() == s.descriptor.ids()[i]);
        assert(d.parts()[i] == descr(d.parts()[i].id()) && s.descriptor.parts()[i] == descr(s.descriptor.parts()[i].id()));
    }
    assert(d.parts() =~= s.descriptor.parts());
}
/// Where the column of a type is.
//@lemma
pub proof fn lemma_column_of<C: Component>(s: Store)
    requires s.ok(), s.descriptor.set().contains(C::ID.0)
    ensures s.descriptor.parts().len() == s.len() <= 14, sorted(ids_of(s.descriptor.parts())), s.pointers.len() == 14,
        forall|i: int| 0 <= i < s.len() && ids_of(s.descriptor.parts())[i] == C::ID.0 ==> i == s.col(C::ID.0),
        forall|i: int| !#[trigger] place(s.descriptor.ids(), i, C::ID.0),
{
    lemma_cells(s);
    let x = C::ID.0;
    assert(s.descriptor.ids().contains(x));
    assert forall|i: int| 0 <= i < s.len() && ids_of(s.descriptor.parts())[i] == C::ID.0 implies i == s.col(C::ID.0) by { lemma_col(s, i); assert(s.id(i) == x); }
    assert forall|i: int| !#[trigger] place(s.descriptor.ids(), i, x) by { if place(s.descriptor.ids(), i, x) { let j = s.descriptor.ids().index_of(x); assert(s.descriptor.ids()[j] == x); } }
}
/// One component: where it is, and its value.
//@lemma
pub proof fn lemma_single<C: Component>(s: Store, r: int)
    requires s.ok(), s.descriptor.set().contains(C::ID.0), 0 <= r < s.capacity
    ensures ({
        let (c, z) = (s.col(C::ID.0), vstd::layout::size_of::<C>() as int);
        &&& 0 <= c < s.len() && s.size(c) == z && s.align(c) == vstd::layout::align_of::<C>()
        &&& s.heap.has(s.blk(c), s.off(c) + r * z, z) && s.heap.aligned(s.blk(c), s.off(c) + r * z, s.align(c))
        &&& 0 <= r * z <= 0x7fff_ffff_ffff && (s.blk(c) < 0 ==> r * z == 0)
        &&& s.cells()[r].contains_key(C::ID.0) == sound::<C>(s.cell(c, r))
        &&& s.cells()[r].contains_key(C::ID.0) ==> s.cells()[r][C::ID.0] == s.cell(c, r)
    })
{
    C::own_id();
    lemma_cells(s);
    let c = s.col(C::ID.0);
    assert(s.id(c) == C::ID.0);
    assert(described(s.descriptor.parts()[c]));
    assert(s.descriptor.parts()[c].id() == s.descriptor.ids()[c]);
    assert(C::DESCRIPTOR == descr(C::ID.0));
    lemma_place_of_row(s, c, r, 1);
    assert(1 * s.size(c) == s.size(c)) by (nonlinear_arith);
    assert(s.used(c) ==> s.blk(c) >= 0);
    assert(s.cells()[r].contains_key(C::ID.0) == (s.descriptor.set().contains(C::ID.0) && valid_bits(C::ID.0, s.cell(c, r))));
}
/// Writing it.
//@lemma
pub proof fn lemma_single_put<C: Component>(s: Store, r: int)
    requires s.ok(), s.descriptor.set().contains(C::ID.0), 0 <= r < s.capacity
    ensures forall|x: C| ({
        let c = s.col(C::ID.0);
        let t = Store { heap: s.heap.with(s.blk(c), s.off(c) + r * vstd::layout::size_of::<C>(), #[trigger] raw(x)), ..s };
        t.ok() && t.handles() == s.handles() && t.drops() == s.drops() && t.cells() == s.cells().update(r, s.cells()[r].insert(C::ID.0, x.bits()))
            && t.cells().len() == s.capacity && forall|i: int| 0 <= i < s.capacity ==> (#[trigger] t.cells()[i]).dom().subset_of(s.descriptor.set())
    })
{
    C::own_id();
    lemma_single::<C>(s, r);
    lemma_cells(s);
    let c = s.col(C::ID.0);
    assert forall|x: C| ({
        let t = Store { heap: s.heap.with(s.blk(c), s.off(c) + r * vstd::layout::size_of::<C>(), #[trigger] raw(x)), ..s };
        t.ok() && t.handles() == s.handles() && t.drops() == s.drops() && t.cells() == s.cells().update(r, s.cells()[r].insert(C::ID.0, x.bits()))
            && t.cells().len() == s.capacity && forall|i: int| 0 <= i < s.capacity ==> (#[trigger] t.cells()[i]).dom().subset_of(s.descriptor.set())
    }) by {
        axiom_raw(x);
        assert(x.bits() == raw(x));
        let t = Store { heap: s.heap.with(s.blk(c), s.off(c) + r * vstd::layout::size_of::<C>(), raw(x)), ..s };
        lemma_put_cell(s, t, c, r, raw(x));
        let m = s.cells()[r].insert(C::ID.0, raw(x));
        assert forall|d: int| 0 <= d < s.len() implies valid_bits(s.id(d), #[trigger] t.cell(d, r)) == m.contains_key(s.id(d)) && (m.contains_key(s.id(d)) ==> t.cell(d, r) == m[s.id(d)]) by {
            lemma_col(s, d);
            assert(t.cell(d, r) == if d == c { raw(x) } else { s.cell(d, r) });
            if d == c { assert(sound::<C>(raw(x))); } else {
                assert(s.id(d) != C::ID.0);
                assert(s.cells()[r].contains_key(s.id(d)) == (s.descriptor.set().contains(s.id(d)) && valid_bits(s.id(d), s.cell(s.col(s.id(d)), r))));
            }
        }
        assert(m.dom().subset_of(s.descriptor.set()));
        lemma_row_written(s, t, r, m);
        lemma_cells(t);
    }
}
/// Row p of s copied to row r of o as far as they share types: types a of s before a0, and a0 for columns before c0 of o.
pub open spec fn copied_cell(s: Store, o: Store, p: int, r: int, a0: int, c0: int, c: int, q: int) -> Bits {
    if c >= 0 && q == r && s.descriptor.set().contains(o.id(c)) && (s.col(o.id(c)) < a0 || s.col(o.id(c)) == a0 && c < c0) { s.cell(s.col(o.id(c)), p) } else { o.cell(c, q) }
}
pub open spec fn copied(s: Store, o: Store, t: Store, p: int, r: int, a0: int, c0: int) -> bool {
    forall|c: int, q: int| -1 <= c < o.len() && 0 <= q < o.capacity ==> #[trigger] t.cell(c, q) == copied_cell(s, o, p, r, a0, c0, c, q)
}
/// Other types are not copied.
//@lemma
pub proof fn lemma_copied_step(s: Store, o: Store, u: Store, p: int, r: int, a: int, c: int)
    requires s.descriptor.ok(), o.descriptor.ok(), 0 <= a < s.len(), 0 <= c < o.len(), copied(s, o, u, p, r, a, c)
    ensures s.id(a) != o.id(c) ==> copied(s, o, u, p, r, a, c + 1)
{
    lemma_col(s, a);
    if s.id(a) != o.id(c) {
        assert forall|d: int, q: int| -1 <= d < o.len() && 0 <= q < o.capacity implies #[trigger] u.cell(d, q) == copied_cell(s, o, p, r, a, c + 1, d, q) by {
            assert(u.cell(d, q) == copied_cell(s, o, p, r, a, c, d, q));
            if d == c && s.descriptor.set().contains(o.id(c)) { assert(s.descriptor.ids().contains(o.id(c))); assert(s.id(s.col(o.id(c))) == o.id(c)); }
        }
    }
}
//@lemma
pub proof fn lemma_copied_all(s: Store, o: Store, t: Store, p: int, r: int, a: int)
    requires s.descriptor.ok(), o.descriptor.ok(), 0 <= a < s.len(), copied(s, o, t, p, r, a, o.len())
    ensures copied(s, o, t, p, r, a + 1, -1), copied(s, o, t, p, r, a + 1, 0)
{
    assert forall|d: int, q: int| -1 <= d < o.len() && 0 <= q < o.capacity implies #[trigger] t.cell(d, q) == copied_cell(s, o, p, r, a + 1, -1, d, q) by {
        assert(t.cell(d, q) == copied_cell(s, o, p, r, a, o.len(), d, q));
    }
    assert forall|d: int, q: int| -1 <= d < o.len() && 0 <= q < o.capacity implies #[trigger] t.cell(d, q) == copied_cell(s, o, p, r, a + 1, 0, d, q) by {
        assert(t.cell(d, q) == copied_cell(s, o, p, r, a, o.len(), d, q));
    }
}
//@lemma
pub proof fn lemma_copied(s: Store, o: Store, t: Store, p: int, r: int)
    requires s.ok(), o.ok(), t.ok(), t.over(&o), t.heap.gone == o.heap.gone, copied(s, o, t, p, r, s.len(), -1), 0 <= p < s.capacity, 0 <= r < o.capacity,
        s.cells()[p].dom() =~= s.descriptor.set(),
    ensures t.cells() == o.cells().update(r, o.cells()[r].union_prefer_right(s.cells()[p].restrict(o.descriptor.set()))), t.drops() == o.drops(), t.handles() == o.handles(),
        t.cells().len() == o.capacity, forall|i: int| 0 <= i < o.capacity ==> (#[trigger] t.cells()[i]).dom().subset_of(o.descriptor.set()),
{
    lemma_cells(s); lemma_cells(o); lemma_cells(t);
    let x = s.cells()[p].restrict(o.descriptor.set());
    let m = o.cells()[r].union_prefer_right(x);
    assert forall|c: int| 0 <= c < o.len() implies valid_bits(o.id(c), #[trigger] t.cell(c, r)) == m.contains_key(o.id(c)) && (m.contains_key(o.id(c)) ==> t.cell(c, r) == m[o.id(c)]) by {
        let id = o.id(c);
        lemma_col(o, c);
        assert(t.cell(c, r) == copied_cell(s, o, p, r, s.len(), -1, c, r));
        assert(o.cells()[r].contains_key(id) == (o.descriptor.set().contains(id) && valid_bits(id, o.cell(o.col(id), r))));
        if s.descriptor.set().contains(id) {
            assert(0 <= s.col(id) < s.len());
            assert(s.cells()[p].contains_key(id));
            assert(x.contains_key(id));
            assert(x[id] == s.cell(s.col(id), p));
        } else {
            assert(!x.contains_key(id));
        }
    }
    assert(m.dom().subset_of(o.descriptor.set()));
    lemma_row_written(o, t, r, m);
}
/// Columns k1..k2 (numbered from 0, the handles first) with room for m rows, the others for n.
pub open spec fn mixed(len: int, k1: int, k2: int, m: int, n: int) -> Seq<int> { Seq::new((len + 1) as nat, |j: int| if k1 <= j < k2 { m } else { n }) }
/// Part way through giving every column room for m rows.
pub open spec fn resizing(o: Store, t: Store, k1: int, k2: int, m: int, keep: int) -> bool {
    &&& t.descriptor == o.descriptor && t.heap.gone == o.heap.gone && t.laid_out(mixed(o.len(), k1, k2, m, o.capacity))
    &&& forall|d: int, q: int| -1 <= d < o.len() && 0 <= q < keep ==> #[trigger] t.cell(d, q) == o.cell(d, q)
}
//@lemma
pub proof fn lemma_begin(o: Store, k: int, m: int, keep: int)
    requires o.ok()
    ensures resizing(o, o, k, k, m, keep)
{
    assert(mixed(o.len(), k, k, m, o.capacity) =~= o.full());
}
/// The next column.
//@lemma
pub proof fn lemma_step(o: Store, s: Store, t: Store, k1: int, k2: int, k: int, m: int, keep: int, p: Ptr<u8>)
    requires resizing(o, s, k1, k2, m, keep), 0 <= m <= MAXE(), keep <= m, keep <= o.capacity, 0 <= k < o.len() + 1,
        k == k2 && k1 <= k2 || k == 0 && k1 == 1 && k2 == o.len() + 1,
        recap(s, t, mixed(o.len(), k1, k2, m, o.capacity), k - 1, p, m)
    ensures k == k2 ==> resizing(o, t, k1, k + 1, m, keep), k != k2 ==> resizing(o, t, 0, k2, m, keep)
{
    let caps = mixed(o.len(), k1, k2, m, o.capacity);
    lemma_recap(s, t, caps, k - 1, p, m);
    if k == k2 { assert(caps.update(k, m) =~= mixed(o.len(), k1, k + 1, m, o.capacity)); } else { assert(caps.update(k, m) =~= mixed(o.len(), 0, k2, m, o.capacity)); }
    assert forall|d: int, q: int| -1 <= d < o.len() && 0 <= q < keep implies #[trigger] t.cell(d, q) == o.cell(d, q) by { assert(s.cell(d, q) == o.cell(d, q)); }
}
/// Done: t is the outcome, its capacity set.
//@lemma
pub proof fn lemma_resized(o: Store, s: Store, t: Store, m: int, keep: int)
    requires o.ok(), resizing(o, s, 0, o.len() + 1, m, keep), 0 <= m <= MAXE(), 0 <= keep <= m, keep <= o.capacity, t == (Store { capacity: m, ..s })
    ensures t.ok(), t.drops() == o.drops(), t.cells().len() == m, t.handles().len() == m,
        forall|q: int| 0 <= q < keep ==> #[trigger] t.cells()[q] == o.cells()[q] && t.handles()[q] == o.handles()[q],
        forall|q: int| 0 <= q < keep ==> #[trigger] t.handles()[q] == o.handles()[q],
        forall|q: int| 0 <= q < m ==> (#[trigger] t.cells()[q]).dom().subset_of(o.descriptor.set()),
        m == 0 ==> t.heap.blocks =~= Map::<int, Block>::empty(),
{
    assert(mixed(o.len(), 0, o.len() + 1, m, o.capacity) =~= t.full());
    let caps = t.full();
    assert(t.laid_out(caps)) by {
        reveal(Store::laid_out);
        assert forall|d: int| -1 <= d < t.len() implies 0 <= #[trigger] caps[d + 1] <= MAXE() && t.column_ok(caps, d) by { assert(s.column_ok(caps, d)); assert(0 <= caps[d + 1]); }
        assert forall|b: int| t.heap.blocks.contains_key(b) implies #[trigger] t.owns(caps, b) by {
            assert(s.owns(caps, b));
            let d = choose|d: int| -1 <= d < s.len() && #[trigger] s.used_at(caps, d) && s.blk(d) == b;
            assert(t.used_at(caps, d) && t.blk(d) == b);
        }
        assert forall|d: int, e: int| -1 <= d < e < t.len() && #[trigger] t.used_at(caps, d) && #[trigger] t.used_at(caps, e) implies t.blk(d) != t.blk(e) by { assert(s.used_at(caps, d) && s.used_at(caps, e)); }
    }
    assert(t.even_log()) by {
        reveal(Store::even_log);
        assert forall|d: int| 0 <= d < t.len() implies t.heap.gone.contains_key(#[trigger] t.id(d)) && t.heap.gone[t.id(d)].len() == t.logged() by { assert(o.heap.gone.contains_key(o.id(d))); }
    }
    if m == 0 {
        assert forall|b: int| !t.heap.blocks.contains_key(b) by { reveal(Store::laid_out); if t.heap.blocks.contains_key(b) { assert(t.owns(caps, b)); } }
    }
    lemma_cells(o); lemma_cells(t);
    lemma_drops(o, t);
    assert forall|q: int| 0 <= q < keep implies #[trigger] t.cells()[q] == o.cells()[q] && t.handles()[q] == o.handles()[q] by {
        assert(t.cell(-1, q) == s.cell(-1, q) && s.cell(-1, q) == o.cell(-1, q));
        assert forall|id: u16| t.cells()[q].contains_key(id) == o.cells()[q].contains_key(id) && (t.cells()[q].contains_key(id) ==> #[trigger] t.cells()[q][id] == o.cells()[q][id]) by {
            let c = o.col(id);
            assert(t.col(id) == c);
            assert(t.cells()[q].contains_key(id) == (t.descriptor.set().contains(id) && valid_bits(id, t.cell(t.col(id), q))));
            assert(o.cells()[q].contains_key(id) == (o.descriptor.set().contains(id) && valid_bits(id, o.cell(o.col(id), q))));
            if o.descriptor.set().contains(id) { assert(t.cell(c, q) == s.cell(c, q)); assert(s.cell(c, q) == o.cell(c, q)); }
        }
        assert(t.cells()[q].dom() =~= o.cells()[q].dom()) by {
            assert forall|id: u16| t.cells()[q].dom().contains(id) == o.cells()[q].dom().contains(id) by { let x = t.cells()[q][id]; assert(t.cells()[q].contains_key(id) == o.cells()[q].contains_key(id)); }
        }
        assert(t.cells()[q] =~= o.cells()[q]);
    }
    assert forall|q: int| 0 <= q < keep implies #[trigger] t.handles()[q] == o.handles()[q] by { let x = t.cells()[q]; assert(t.cells()[q] == o.cells()[q]); }
}
/// Without any memory.
//@lemma
pub proof fn lemma_fresh(s: Store)
    requires s.descriptor.ok(), s.capacity == 0, s.pointers.len() == 14, s.heap.blocks == Map::<int, Block>::empty(), s.ents.dangles(4),
        forall|c: int| 0 <= c < s.len() ==> (#[trigger] s.pointers[c]).dangles(s.descriptor.parts()[c].align as int),
        nothing_gone(s.heap.gone),
    ensures s.ok(), s.drops().len() == 0
{
    reveal(Store::laid_out); reveal(Store::even_log); reveal(Store::drops);
    assert forall|c: int| -1 <= c < s.len() implies 0 <= #[trigger] s.full()[c + 1] <= MAXE() && s.column_ok(s.full(), c) by { assert(s.full()[c + 1] == 0); if c >= 0 { assert(s.pointers[c].dangles(s.align(c))); } }
    assert forall|c: int| -1 <= c < s.len() implies #[trigger] s.column_ok(s.full(), c) by { assert(s.full()[c + 1] == 0); }
    assert forall|c: int| 0 <= c < s.len() implies s.heap.gone.contains_key(#[trigger] s.id(c)) && s.heap.gone[s.id(c)].len() == s.logged() by { assert(s.heap.gone.contains_key(s.id(c)) && s.heap.gone.contains_key(s.id(0))); }
    assert(s.heap.gone.contains_key(s.id(0)));
}
//@lemma
pub proof fn lemma_empty(s: Store)
    requires s.ok(), s.capacity == 0
    ensures s.heap.blocks == Map::<int, Block>::empty()
{
    reveal(Store::laid_out);
    assert forall|b: int| !s.heap.blocks.contains_key(b) by { if s.heap.blocks.contains_key(b) { assert(s.owns(s.full(), b)); } }
    assert(s.heap.blocks =~= Map::<int, Block>::empty());
}
/// In a sorted sequence, elements come no earlier than in one it contains.
//@lemma
pub proof fn lemma_within(g: Seq<u16>, a: Seq<u16>)
    requires sorted(g), sorted(a), g.to_set().subset_of(a.to_set())
    ensures forall|i: int| #![trigger g[i]] 0 <= i < g.len() ==> i <= a.index_of(g[i]) < a.len()
{
    assert forall|i: int| #![trigger g[i]] 0 <= i < g.len() implies i <= a.index_of(g[i]) < a.len() by { lemma_within_at(g, a, i); }
}
//@lemma
pub proof fn lemma_within_at(g: Seq<u16>, a: Seq<u16>, i: int)
    requires sorted(g), sorted(a), g.to_set().subset_of(a.to_set()), 0 <= i < g.len()
    ensures i <= a.index_of(g[i]) < a.len()
    decreases i
{
    assert(g.to_set().contains(g[i]));
    assert(a.contains(g[i]));
    let j = a.index_of(g[i]);
    assert(0 <= j < a.len() && a[j] == g[i]);
    if i > 0 {
        lemma_within_at(g, a, i - 1);
        assert(g.to_set().contains(g[i - 1]));
        assert(a.contains(g[i - 1]));
        let k = a.index_of(g[i - 1]);
        assert(a[k] == g[i - 1]);
        assert(g[i - 1] < g[i]);
        if j < k { assert(a[j] < a[k]); }
    }
}
/// Reading n rows.
//@lemma
pub proof fn lemma_read_rows(a: Archetype, d: ArchetypeDescriptor, p: Seq<Ptr<u8>>, r: int, n: int)
    requires a.ok(), d.ok(), d.set().subset_of(a.set()), 0 <= r, 0 <= n, r + n <= a.n(), p.len() == 14, into_store(a.store(), d, p, r),
        forall|k: int| r <= k < r + n ==> (#[trigger] a.cells()[k]).dom() =~= a.set(),
    ensures pointing(a.mem@, d, p, n), apart(d, p, n),
        forall|k: int| 0 <= k < n ==> #[trigger] gathered(a.mem@, d, p, k, n) == a.rows()[r + k].comps.restrict(d.set()),
{
    assert forall|k: int| r <= k < r + n implies d.set().subset_of((#[trigger] a.store().cells()[k]).dom()) by { assert(a.cells()[k].dom() =~= a.set()); }
    lemma_pointing(a.store(), d, p, r, n);
    assert forall|k: int| 0 <= k < n implies #[trigger] gathered(a.mem@, d, p, k, n) == a.rows()[r + k].comps.restrict(d.set()) by {
        assert(gathered(a.store().heap, d, p, k, n) =~= a.store().cells()[r + k].restrict(d.set()));
        assert(a.rows()[r + k].comps == a.cells()[r + k]);
    }
}
/// Overwriting n rows.
//@lemma
pub proof fn lemma_wrote_rows(a: Archetype, d: ArchetypeDescriptor, p: Seq<Ptr<u8>>, r: int, h: Heap, rows: Seq<Map<u16, Bits>>)
    requires a.ok(), d.ok(), d.set().subset_of(a.set()), 0 <= r, r + rows.len() <= a.n(), p.len() == 14, into_store(a.store(), d, p, r),
        overwrites(a.mem@, h, d, p, rows),
    ensures ({
        let t = Store { heap: h, ..a.store() };
        &&& t.ok() && t.handles() == a.handles() && t.drops() == a.drops() && t.cells().len() == a.capacity
        &&& forall|i: int| 0 <= i < a.capacity ==> (#[trigger] t.cells()[i]).dom().subset_of(a.set())
        &&& forall|i: int| 0 <= i < a.capacity ==> #[trigger] t.cells()[i] == if r <= i < r + rows.len() { overwritten(a.rows()[i].comps, rows[i - r], d.set()) } else { a.cells()[i] }
    })
{
    let t = Store { heap: h, ..a.store() };
    lemma_overwrites(a.store(), t, d, p, r, rows);
    lemma_cells(t);
    assert forall|i: int| 0 <= i < a.capacity implies #[trigger] t.cells()[i] == if r <= i < r + rows.len() { overwritten(a.rows()[i].comps, rows[i - r], d.set()) } else { a.cells()[i] } by {
        if r <= i < r + rows.len() { assert(a.rows()[i].comps == a.cells()[i]); }
    }
}
//@lemma
pub proof fn lemma_own_pointers(s: Store)
    requires s.descriptor.ok()
    ensures into_store(s, s.descriptor, s.pointers, 0)
{
    assert forall|i: int| #![trigger s.pointers[i]] 0 <= i < s.len() implies s.pointers[i].block() == s.blk(s.col(s.descriptor.ids()[i]))
        && s.pointers[i].off() == s.off(s.col(s.descriptor.ids()[i])) + 0 * s.descriptor.parts()[i].size by { lemma_col(s, i); assert(s.descriptor.ids()[i] == s.id(i)); assert(0 * s.descriptor.parts()[i].size == 0) by (nonlinear_arith); }
}
//@fn archetype/mod.rs | - | allocate -> r as archetype::allocate
//@sub `allocate(layout: Layout)` => `allocate(mem: &mut Mem, layout: Layout)`
//@sub `layout.align() as *mut u8` => `dangling(layout.align())`
//@call `alloc` => `mem.alloc(`
//@sub `-> *mut u8` => `-> Ptr<u8>`
    requires align_ok(layout.align as int)
    ensures resized(old(mem)@, 0, 0, final(mem)@, r, layout.size as int, layout.align as int)
//@end
//@fn archetype/mod.rs | - | deallocate as archetype::deallocate
//@sub `deallocate(pointer: *mut u8,` => `deallocate(mem: &mut Mem, pointer: Ptr<u8>,`
//@call `dealloc` => `mem.dealloc(`
    requires holds(old(mem)@, pointer, layout.size as int, layout.align as int)
    ensures final(mem)@.gone == old(mem)@.gone, final(mem)@.blocks == if layout.size > 0 { old(mem)@.blocks.remove(pointer.block()) } else { old(mem)@.blocks },
//@end
//@fn archetype/mod.rs | - | reallocate -> r as archetype::reallocate
//@sub `reallocate(pointer: *mut u8,` => `reallocate(mem: &mut Mem, pointer: Ptr<u8>,`
//@sub `-> *mut u8` => `-> Ptr<u8>`
//@call `deallocate` => `deallocate(mem, `
//@call `allocate` => `allocate(mem, `
//@call `realloc` => `mem.realloc(`
    requires holds(old(mem)@, pointer, layout.size as int, layout.align as int), align_ok(layout.align as int), new_size + layout.align <= 0x8000_0000_0000_0000
    ensures resized(old(mem)@, pointer.block(), layout.size as int, final(mem)@, r, new_size as int, layout.align as int)
//@end

impl Archetype {
    pub open spec fn store(&self) -> Store { Store { heap: self.mem@, pointers: self.pointers@, ents: self.entity_associations, descriptor: self.descriptor, capacity: self.capacity as int } }
    pub open spec fn n(&self) -> int { self.entity_count as int }
    pub open spec fn cells(&self) -> Seq<Map<u16, Bits>> { self.store().cells() }
    pub open spec fn handles(&self) -> Seq<Entity> { self.store().handles() }
    pub open spec fn drops(&self) -> Seq<Map<u16, Bits>> { self.store().drops() }
    pub open spec fn set(&self) -> Set<u16> { self.descriptor.set() }
    pub open spec fn rows(&self) -> Seq<Row> { Seq::new(self.n() as nat, |i: int| Row { handle: self.handles()[i], comps: self.cells()[i] }) }
    pub open spec fn ok(&self) -> bool {
        &&& self.store().ok()
        &&& self.descriptor.ok()
        &&& self.n() <= self.capacity <= MAXE()
        &&& self.cells().len() == self.capacity && self.handles().len() == self.capacity
        &&& forall|i: int| 0 <= i < self.capacity ==> (#[trigger] self.cells()[i]).dom().subset_of(self.set())
    }
    /// Every row has a component of each type.
    pub open spec fn filled(&self) -> bool { forall|i: int| 0 <= i < self.n() ==> (#[trigger] self.cells()[i]).dom() =~= self.set() }
    /// Same description and drop log.
    pub open spec fn kept(&self, o: &Archetype) -> bool { self.descriptor == o.descriptor && self.drops() == o.drops() }
    pub open spec fn like(&self, o: &Archetype) -> bool { self.kept(o) && self.capacity == o.capacity }

//@fn archetype/data_access.rs | impl Archetype | entities -> r as Archetype::entities
//@call `&*slice_from_raw_parts` => `self.mem.slice(`
        requires self.ok()
        ensures r@ =~= self.handles().take(self.n()), r@.len() == self.n(), forall|i: int| 0 <= i < self.n() ==> #[trigger] r@[i] == self.rows()[i].handle
//@start
        proof { lemma_handle_column(self.store(), self.n()); }
//@end
//@fn archetype/data_access.rs | impl Archetype | entities_mut -> r as Archetype::entities_mut
//@call `&mut *slice_from_raw_parts_mut` => `self.mem.slice_mut(`
        requires old(self).ok()
        ensures r@ =~= old(self).handles().take(old(self).n()), final(self).ok(), final(self).like(old(self)), final(self).cells() == old(self).cells(),
            final(self).entity_count == old(self).entity_count,
            final(self).handles() =~= final(r)@ + old(self).handles().skip(old(self).n()),
            final(r)@.len() == old(self).n(),
//@start
        proof {
            let (s, n) = (self.store(), self.n());
            lemma_handle_column(s, n);
            assert forall|v: Bits, hs: Seq<Entity>| #[trigger] of_handles(v, hs) && hs.len() == n implies ({
                    let t = Store { heap: s.heap.with(s.ents.block(), s.ents.off(), v), ..s };
                    t.ok() && t.cells() == s.cells() && t.drops() == s.drops() && t.handles() == hs + s.handles().skip(n)
                }) by { lemma_handles_written(s, Store { heap: s.heap.with(s.ents.block(), s.ents.off(), v), ..s }, n, v, hs); }
        }
//@end
//@fn archetype/data_access.rs | impl Archetype | swap_entities as Archetype::swap_entities
//@call `core::ptr::swap_nonoverlapping` => `self.mem.swap_nonoverlapping(`
        requires old(self).ok(), first < old(self).n(), second < old(self).n(), first != second
        ensures final(self).ok(), final(self).like(old(self)), final(self).entity_count == old(self).entity_count,
            final(self).cells() == swapped(old(self).cells(), first as int, second as int),
            final(self).handles() == swapped(old(self).handles(), first as int, second as int),
//@start
        let ghost o = self.store();
        proof { lemma_cells(o); }
//@loop 1
            invariant it_1@ == o.descriptor.parts(), i_1 <= it_1@.len(), o == old(self).store(), o.ok(), o.descriptor.ok(),
                self.store().ok(), self.store().over(&o), self.store().heap.gone == o.heap.gone, self.entity_count == old(self).entity_count,
                first < self.n(), second < self.n(), first != second, self.n() <= o.capacity <= MAXE(),
                forall|c: int, q: int| -1 <= c < o.len() && 0 <= q < o.capacity ==> #[trigger] self.store().cell(c, q)
                    == if 0 <= c < i_1 { o.cell(c, if q == first { second as int } else if q == second { first as int } else { q }) } else { o.cell(c, q) },
            decreases it_1@.len() - i_1
//@body 1
            let ghost s = self.store();
            proof {
                lemma_place_of_row(s, idx as int, first as int, 1); lemma_place_of_row(s, idx as int, second as int, 1); lemma_cells(s);
                let z = descriptor.size as int;
                assert(1 * z == z) by (nonlinear_arith);
                assert(first < second ==> first * z + z <= second * z) by (nonlinear_arith) requires z >= 0;
                assert(second < first ==> second * z + z <= first * z) by (nonlinear_arith) requires z >= 0;
            }
//@last 1
            proof {
                let c = idx as int;
                let t = Store { heap: s.heap.with(s.blk(c), s.off(c) + first * s.size(c), s.cell(c, second as int)), ..s };
                lemma_put_cell(s, t, c, first as int, s.cell(c, second as int));
                lemma_put_cell(t, self.store(), c, second as int, s.cell(c, first as int));
            }
//@after 1
        proof { lemma_rows_swapped(o, self.store(), first as int, second as int); lemma_cells(o); lemma_cells(self.store()); assert(self.handles() =~= old(self).handles()); }
//@end
//@fn archetype/data_access.rs | impl Archetype | drop_entity as Archetype::drop_entity
//@call `($n.fns.drop_handler)` => `self.mem.run_drop($n, `
        requires old(self).ok(), index < old(self).capacity, old(self).cells()[index as int].dom() =~= old(self).set()
        ensures final(self).ok(), final(self).descriptor == old(self).descriptor, final(self).capacity == old(self).capacity,
            final(self).entity_count == old(self).entity_count, final(self).handles() == old(self).handles(),
            final(self).drops() == old(self).drops().push(old(self).cells()[index as int]),
            forall|i: int| 0 <= i < old(self).capacity && i != index ==> #[trigger] final(self).cells()[i] == old(self).cells()[i],
//@start
        let ghost o = self.store();
        proof { lemma_cells(o); lemma_nothing_ran(o, index as int, 1); }
//@loop 1
            invariant it_1@ == o.descriptor.parts(), i_1 <= it_1@.len(), o == old(self).store(), o.ok(), o.descriptor.ok(), index < o.capacity,
                ran(o, with_log(self.store(), o.heap.gone), self.store(), index as int, 1, i_1 as int), self.store().over(&o), self.entity_count == old(self).entity_count,
                o.cells()[index as int].dom() =~= o.descriptor.set(),
            decreases it_1@.len() - i_1
//@body 1
            let ghost s = self.store();
            proof { lemma_may_run(o, s, index as int, 1, idx as int); }
//@last 1
            proof {
                let c = idx as int;
                let v = choose|v: Bits| v.len() == 1 * descriptor.size && self.mem@.blocks == (#[trigger] s.heap.with(s.blk(c), s.off(c) + index * s.size(c), v)).blocks;
                lemma_ran(o, s, self.store(), index as int, 1, c, v);
            }
//@after 1
        proof { lemma_all_ran(o, self.store(), index as int, 1); assert(o.drops() + o.cells().subrange(index as int, index + 1) =~= o.drops().push(o.cells()[index as int])); }
//@end
//@fn archetype/data_access.rs | impl Archetype | drop_entities as Archetype::drop_entities
//@call `($n.fns.drop_handler)` => `self.mem.run_drop($n, `
        requires old(self).ok(), old(self).filled()
        ensures final(self).ok(), final(self).descriptor == old(self).descriptor, final(self).capacity == old(self).capacity,
            final(self).entity_count == old(self).entity_count, final(self).handles() == old(self).handles(),
            final(self).drops() == old(self).drops() + old(self).cells().take(old(self).n()),
//@start
        let ghost o = self.store();
        proof { lemma_cells(o); lemma_nothing_ran(o, 0, self.n()); }
//@loop 1
            invariant it_1@ == o.descriptor.parts(), i_1 <= it_1@.len(), o == old(self).store(), o.ok(), o.descriptor.ok(), self.n() <= o.capacity,
                ran(o, with_log(self.store(), o.heap.gone), self.store(), 0, self.n(), i_1 as int), self.store().over(&o), self.entity_count == old(self).entity_count,
                forall|q: int| 0 <= q < self.n() ==> (#[trigger] o.cells()[q]).dom() =~= o.descriptor.set(),
            decreases it_1@.len() - i_1
//@body 1
            let ghost s = self.store();
            proof { lemma_may_run(o, s, 0, self.n(), idx as int); }
//@last 1
            proof {
                let c = idx as int;
                assert(0 * s.size(c) == 0) by (nonlinear_arith);
                let v = choose|v: Bits| v.len() == self.n() * descriptor.size && self.mem@.blocks == (#[trigger] s.heap.with(s.blk(c), s.off(c) + 0 * s.size(c), v)).blocks;
                lemma_ran(o, s, self.store(), 0, self.n(), c, v);
            }
//@after 1
        proof { lemma_all_ran(o, self.store(), 0, self.n()); assert(o.cells().subrange(0, self.n()) =~= o.cells().take(self.n())); }
//@end
//@fn archetype/data_access.rs | impl Archetype | offset_sorted_pointers_unchecked -> r as Archetype::offset_sorted_pointers_unchecked
//@sub `[*mut u8; MAX_COMPONENTS_PER_ENTITY]` => `[Ptr<u8>; 14]`
//@sub `[core::ptr::null_mut(); MAX_COMPONENTS_PER_ENTITY]` => `no_pointers()`
        requires self.ok(), index < self.capacity
        ensures into_store(self.store(), self.descriptor, r@, index as int)
//@start
        let ghost o = self.store();
        proof { lemma_cells(o); }
//@loop 1
            invariant o == self.store(), o.ok(), index < self.capacity, it_1@ == self.pointers@.take(o.len()), i_1 <= it_1@.len(), o.len() <= 14, o.pointers.len() == 14,
                self.descriptor.ok(), 
                forall|i: int| #![trigger pointers@[i]] 0 <= i < i_1 ==> pointers@[i].block() == o.blk(i) && pointers@[i].off() == o.off(i) + index * o.size(i),
            decreases it_1@.len() - i_1
//@body 1
            proof {
                lemma_place_of_row(o, c_idx as int, index as int, 1);
                let z = o.descriptor.parts()[c_idx as int].size as int;
                assert(z == o.size(c_idx as int));
                assert(index * z == z * index) by (nonlinear_arith);
            }
//@after 1
        proof {
            assert forall|i: int| #![trigger pointers@[i]] 0 <= i < o.len() implies pointers@[i].block() == o.blk(o.col(self.descriptor.ids()[i]))
                && pointers@[i].off() == o.off(o.col(self.descriptor.ids()[i])) + index * self.descriptor.parts()[i].size by { lemma_col(o, i); }
        }
//@end
//@fn archetype/data_access.rs | impl Archetype | read_components_exact_unchecked -> r as Archetype::read_components_exact_unchecked
//@call `G::read_from_sorted_pointers` => `G::read_from_sorted_pointers(&self.mem, `
        requires self.ok(), index < self.capacity, G::DESCRIPTOR.valid(), G::DESCRIPTOR.set() =~= self.set(),
            self.cells()[index as int].dom() =~= self.set()
        ensures r.comps() == self.cells()[index as int]
//@start
        proof {
            let (s, d, r) = (self.store(), G::DESCRIPTOR.archetype, index as int);
            G::canonical();
            lemma_canonical(d.ids(), self.descriptor.ids());
            assert forall|p: Seq<Ptr<u8>>| p.len() == 14 && #[trigger] into_store(s, self.descriptor, p, r) implies into_store(s, d, p, r) && pointing(s.heap, d, p, 1) && gathered(s.heap, d, p, 0, 1) =~= s.cells()[r] by {
                lemma_same_types(s, d);
                lemma_pointing(s, d, p, r, 1);
                lemma_cells(s);
                assert(gathered(s.heap, d, p, 0, 1) =~= s.cells()[r + 0].restrict(d.set()));
                assert(s.cells()[r].restrict(d.set()) =~= s.cells()[r]);
            }
        }
//@end
//@fn archetype/data_access.rs | impl Archetype | write_entity_unchecked as Archetype::write_entity_unchecked
//@sub `[core::ptr::null_mut(); MAX_COMPONENTS_PER_ENTITY]` => `no_pointers()`
//@sub `entity.as_sorted_pointers(&mut pointers);` => `let local = entity.as_sorted_pointers(&mut pointers);`
//@call `core::ptr::copy_nonoverlapping::<u8>` => `self.mem.copy_from(&local, `
//@sub `core::mem::forget(` => `forget(`
        requires old(self).ok(), index < old(self).n(), G::DESCRIPTOR.valid(), G::DESCRIPTOR.set() =~= old(self).set()
        ensures final(self).ok(), final(self).like(old(self)), final(self).entity_count == old(self).entity_count,
            final(self).cells() == old(self).cells().update(index as int, entity.comps()), entity.comps().dom() =~= old(self).set(),
            final(self).handles() == old(self).handles().update(index as int, entity_handle),
//@start
        let ghost o = self.store();
        let ghost g = G::DESCRIPTOR.archetype;
        let ghost m = entity.comps();
        let ghost r = index as int;
        proof { G::canonical(); entity.full(); lemma_canonical(g.ids(), self.descriptor.ids()); lemma_same_types(o, g); lemma_cells(o); }
//@loop 1
            invariant o == old(self).store(), o.ok(), o.descriptor.ok(), g == G::DESCRIPTOR.archetype, g.parts() == o.descriptor.parts(), g.len == o.len(), g.set() == o.descriptor.set(),
                g.ok(), r == index, index < old(self).n(), old(self).n() <= o.capacity, o.pointers.len() == 14, m == gathered(local@, g, pointers@, 0, 1),
                pointing(local@, g, pointers@, 1), full_row(g, m), pointers@.len() == 14,
                self.store().ok(), self.store().over(&o), self.store().heap.gone == o.heap.gone, self.entity_count == old(self).entity_count,
                forall|c: int, q: int| -1 <= c < o.len() && 0 <= q < o.capacity ==> #[trigger] self.store().cell(c, q) == if 0 <= c < i && q == r { m[o.id(c)] } else { o.cell(c, q) },
//@body 1
            let ghost s = self.store();
            proof {
                let c = i as int;
                lemma_place_of_row(s, c, r, 1);
                lemma_place_of_row(o, c, r, 1);
                lemma_col(o, c);
                let z = o.size(c);
                assert(r * z == z * r && 1 * z == z && 0 * z == 0) by (nonlinear_arith);
                assert(g.ids().index_of(g.ids()[c]) == c);
                assert(local@.values(g.parts()[c], pointers@[c].block(), pointers@[c].off(), 1)[0] == m[o.id(c)]);
            }
//@last 1
            proof { lemma_put_cell(s, self.store(), i as int, r, m[o.id(i as int)]); }
//@after 1
        proof {
            let t = self.store();
            assert forall|c: int| 0 <= c < o.len() implies valid_bits(o.id(c), #[trigger] t.cell(c, r)) == m.contains_key(o.id(c)) && (m.contains_key(o.id(c)) ==> t.cell(c, r) == m[o.id(c)]) by {
                lemma_col(o, c);
                assert(valid_bits(g.parts()[c].id(), m[g.ids()[c]]));
                assert(g.parts()[c].id() == g.ids()[c]);
            }
            lemma_row_written(o, t, r, m);
        }
//@end
//@fn archetype/data_access.rs | impl Archetype | write_single_component_unchecked as Archetype::write_single_component_unchecked
//@typed
//@call `core::ptr::write` => `self.mem.write(`
//@sub `unreachable!()` => `never()`
        requires old(self).ok(), index < old(self).n(), old(self).set().contains(C::ID.0)
        ensures final(self).ok(), final(self).like(old(self)), final(self).entity_count == old(self).entity_count,
            final(self).handles() == old(self).handles(),
            final(self).cells() == old(self).cells().update(index as int, old(self).cells()[index as int].insert(C::ID.0, component.bits())),
//@start
        let ghost o = self.store();
        proof { lemma_single::<C>(o, index as int); lemma_column_of::<C>(o); axiom_raw(component); lemma_single_put::<C>(o, index as int); C::own_id(); }
//@end
//@fn archetype/data_access.rs | impl Archetype | read_component_unchecked -> r as Archetype::read_component_unchecked
//@typed
//@call `core::ptr::read::<C>` => `self.mem.read::<C>(`
//@sub `unreachable!()` => `never()`
        requires old(self).ok(), index < old(self).n(), old(self).set().contains(C::ID.0), old(self).cells()[index as int].contains_key(C::ID.0)
        ensures r.bits() == old(self).cells()[index as int][C::ID.0], *final(self) == *old(self)
//@start
        proof { lemma_single::<C>(self.store(), index as int); lemma_column_of::<C>(self.store()); C::own_id(); }
//@end
//@fn archetype/data_access.rs | impl Archetype | get_component_unchecked -> r as Archetype::get_component_unchecked
//@typed
//@sub `unreachable!()` => `never()`
        requires self.ok(), index < self.n(), self.set().contains(C::ID.0), self.cells()[index as int].contains_key(C::ID.0)
        ensures r.bits() == self.cells()[index as int][C::ID.0]
//@start
        proof { lemma_single::<C>(self.store(), index as int); lemma_column_of::<C>(self.store()); C::own_id(); }
//@end
//@fn archetype/data_access.rs | impl Archetype | get_component_unchecked_mut -> r as Archetype::get_component_unchecked_mut
//@typed
//@sub `unreachable!()` => `never()`
        requires old(self).ok(), index < old(self).n(), old(self).set().contains(C::ID.0), old(self).cells()[index as int].contains_key(C::ID.0)
        ensures r.bits() == old(self).cells()[index as int][C::ID.0],
            final(self).ok(), final(self).like(old(self)), final(self).entity_count == old(self).entity_count, final(self).handles() == old(self).handles(),
            final(self).cells() == old(self).cells().update(index as int, old(self).cells()[index as int].insert(C::ID.0, final(r).bits())),
//@start
        let ghost o = self.store();
        proof { lemma_single::<C>(o, index as int); lemma_column_of::<C>(o); lemma_single_put::<C>(o, index as int); C::own_id(); }
//@end
//@fn archetype/data_access.rs | impl Archetype | copy_common_components_between_archetypes_unchecked as Archetype::copy_common_components_between_archetypes_unchecked
//@call `core::ptr::copy_nonoverlapping` => `destination.mem.copy_from(&source.mem, `
        requires source.ok(), old(destination).ok(), source_index < source.n(), destination_index < old(destination).n(),
            source.rows()[source_index as int].comps.dom() =~= source.set(),
        ensures final(destination).ok(), final(destination).like(old(destination)), final(destination).entity_count == old(destination).entity_count,
            final(destination).handles() == old(destination).handles(),
            final(destination).cells() == old(destination).cells().update(destination_index as int,
                old(destination).cells()[destination_index as int].union_prefer_right(
                    source.rows()[source_index as int].comps.restrict(old(destination).set()))),
//@start
        let ghost s = source.store();
        let ghost o = destination.store();
        let ghost (p, r) = (source_index as int, destination_index as int);
        proof { lemma_cells(s); lemma_cells(o); }
//@loop 1
            invariant it_1@ == s.descriptor.parts(), i_1 <= it_1@.len(), s == source.store(), o == old(destination).store(), s.ok(), o.ok(), s.descriptor.ok(), o.descriptor.ok(),
                p == source_index, r == destination_index, p < s.capacity, r < o.capacity,
                destination.store().ok(), destination.store().over(&o), destination.store().heap.gone == o.heap.gone, destination.entity_count == old(destination).entity_count,
                copied(s, o, destination.store(), p, r, i_1 as int, -1),
            decreases it_1@.len() - i_1
//@loop 2
                invariant it_1@ == s.descriptor.parts(), 0 < i_1 <= it_1@.len(), s == source.store(), o == old(destination).store(), s.ok(), o.ok(), s.descriptor.ok(), o.descriptor.ok(),
                    p == source_index, r == destination_index, p < s.capacity, r < o.capacity,
                    destination.store().ok(), destination.store().over(&o), destination.store().heap.gone == o.heap.gone, destination.entity_count == old(destination).entity_count,
                    it_2@ == o.descriptor.parts(), i_2 <= it_2@.len(), source_c_idx == i_1 - 1, *source_component == s.descriptor.parts()[source_c_idx as int],
                    copied(s, o, destination.store(), p, r, source_c_idx as int, i_2 as int),
                decreases it_2@.len() - i_2
//@body 2
                let ghost u = destination.store();
                proof {
                    let (a, c) = (source_c_idx as int, destination_c_idx as int);
                    lemma_cells(u);
                    lemma_place_of_row(s, a, p, 1);
                    lemma_place_of_row(u, c, r, 1);
                    lemma_col(s, a); lemma_col(o, c);
                    assert(described(s.descriptor.parts()[a]));
                    assert(described(o.descriptor.parts()[c]));
                    assert(s.id(a) == s.descriptor.parts()[a].id() && o.id(c) == o.descriptor.parts()[c].id());
                    let (y, z) = (s.size(a), o.size(c));
                    assert(p * y == y * p && r * z == z * r && 1 * y == y && 1 * z == z) by (nonlinear_arith);
                    lemma_copied_step(s, o, u, p, r, a, c);
                }
//@last 2
                proof {
                    let (a, c) = (source_c_idx as int, destination_c_idx as int);
                    if s.id(a) == o.id(c) { lemma_put_cell(u, destination.store(), c, r, s.cell(a, p)); }
                    assert(copied(s, o, destination.store(), p, r, a, c + 1)) by {
                        assert forall|d: int, q: int| -1 <= d < o.len() && 0 <= q < o.capacity implies #[trigger] destination.store().cell(d, q) == copied_cell(s, o, p, r, a, c + 1, d, q) by {
                            assert(u.cell(d, q) == copied_cell(s, o, p, r, a, c, d, q));
                            if d >= 0 { lemma_col(o, d); }
                        }
                    }
                }
//@after 2
            proof { lemma_copied_all(s, o, destination.store(), p, r, source_c_idx as int); }
//@after 1
        proof { lemma_copied(s, o, destination.store(), p, r); assert(source.rows()[p].comps == s.cells()[p]); }
//@end
//@fn archetype/data_access.rs | impl Archetype | resize_capacity as Archetype::resize_capacity
//@call `reallocate` => `reallocate(&mut self.mem, `
//@sub `self.entity_associations as *mut u8` => `self.entity_associations.cast::<u8>()`
//@sub `} as *mut Entity` => `}.cast::<Entity>()`
//@sub `!= (core::ptr::null_mut())` => `.non_null()`
        requires old(self).ok(), 0 < old(self).capacity + change_in_entity_count <= MAXE(), old(self).n() <= old(self).capacity + change_in_entity_count
        ensures final(self).ok(), final(self).kept(old(self)), final(self).entity_count == old(self).entity_count,
            final(self).capacity == old(self).capacity + change_in_entity_count,
            forall|i: int| 0 <= i < old(self).n() ==> #[trigger] final(self).cells()[i] == old(self).cells()[i],
            forall|i: int| 0 <= i < old(self).n() ==> #[trigger] final(self).handles()[i] == old(self).handles()[i],
//@start
        let ghost o = self.store();
        let ghost m = o.capacity + change_in_entity_count;
        proof { lemma_cells(o); lemma_begin(o, 0, m, self.n()); lemma_column(o, mixed(o.len(), 0, 0, m, o.capacity), -1); }
//@before 1
        proof {
            axiom_untyped(self.entity_associations);
            lemma_step(o, o, self.store(), 0, 0, 0, m, self.n(), self.entity_associations.untyped());
        }
//@loop 1
            invariant o == old(self).store(), o.ok(), m == o.capacity + change_in_entity_count, 0 < m <= MAXE(), new_capacity == m, old_capacity == o.capacity,
                self.n() <= m, self.n() <= o.capacity, i_1 <= n_1, n_1 == o.len(), o.len() <= 14, self.descriptor == o.descriptor, self.entity_count == old(self).entity_count,
                self.capacity == o.capacity, resizing(o, self.store(), 0, i_1 + 1, m, self.n()),
            decreases n_1 - i_1
//@top 1
            let ghost s = self.store();
            proof { let index = i_1; lemma_column(s, mixed(o.len(), 0, index + 1, m, o.capacity), index as int);
                assert(0 <= s.size(index as int) * m <= 0xffff * 0xff_ffff) by (nonlinear_arith) requires 0 <= s.size(index as int) <= 0xffff, 0 <= m <= 0xff_ffff;
                assert(s.size(index as int) * m == m * s.size(index as int) && s.size(index as int) * o.capacity == o.capacity * s.size(index as int)) by (nonlinear_arith);
            }
//@last 1
            proof { lemma_step(o, s, self.store(), 0, index + 1, index + 1, m, self.n(), self.pointers@[index as int]); }
//@after 1
        proof { lemma_resized(o, self.store(), Store { capacity: m, ..self.store() }, m, self.n()); }
//@end
//@fn archetype/data_access.rs | impl Archetype | dealloc as Archetype::dealloc
//@call `deallocate` => `deallocate(&mut self.mem, `
//@sub `self.entity_associations as *mut u8` => `self.entity_associations.cast::<u8>()`
//@sub `component_type.align as usize as *mut u8` => `dangling(component_type.align as usize)`
//@sub `core::ptr::NonNull::dangling().as_ptr()` => `dangling(align_of::<Entity>())`
        requires old(self).ok()
        ensures final(self).store().ok(), final(self).kept(old(self)), final(self).entity_count == old(self).entity_count, final(self).capacity == 0,
            final(self).mem@.blocks == Map::<int, Block>::empty(),
//@start
        let ghost o = self.store();
        proof { lemma_cells(o); lemma_begin(o, 1, 0, 0); }
//@loop 1
            invariant o == old(self).store(), o.ok(), i_1 <= n_1, n_1 == o.len(), o.len() <= 14, self.descriptor == o.descriptor, self.entity_count == old(self).entity_count,
                self.capacity == o.capacity, resizing(o, self.store(), 1, i_1 + 1, 0, 0),
            decreases n_1 - i_1
//@top 1
            let ghost s = self.store();
            proof { let index = i_1; lemma_column(s, mixed(o.len(), 1, index + 1, 0, o.capacity), index as int);
                assert(0 * s.size(index as int) == 0) by (nonlinear_arith);
                assert(s.size(index as int) * o.capacity == o.capacity * s.size(index as int)) by (nonlinear_arith);
            }
//@last 1
            proof { lemma_step(o, s, self.store(), 1, index + 1, index + 1, 0, 0, self.pointers@[index as int]); }
//@after 1
        let ghost s = self.store();
        proof { lemma_column(s, mixed(o.len(), 1, o.len() + 1, 0, o.capacity), -1); assert(0 * s.size(-1) == 0) by (nonlinear_arith); }
//@tail
        proof {
            axiom_untyped(self.entity_associations);
            let t = Store { capacity: o.capacity, ..self.store() };
            lemma_step(o, s, t, 1, o.len() + 1, 0, 0, 0, self.entity_associations.untyped());
            lemma_resized(o, t, self.store(), 0, 0);
        }
//@end
//@fn archetype/mod.rs | impl Archetype | with_capacity -> r as Archetype::with_capacity
//@sub `descriptor: archetype_descriptor.clone(),` => `mem: Mem::none(), descriptor: archetype_descriptor.clone(),`
//@sub `[core::ptr::null_mut(); MAX_COMPONENTS_PER_ENTITY]` => `no_pointers()`
//@sub `core::ptr::NonNull::dangling().as_ptr()` => `dangling(align_of::<Entity>())`
//@sub `component.align as usize as *mut u8` => `dangling(component.align as usize)`
//@call `allocate` => `allocate(&mut archetype.mem, `
//@sub `} as *mut Entity` => `}.cast::<Entity>()`
//@sub `!= (core::ptr::null_mut())` => `.non_null()`
        requires archetype_descriptor.ok(), archetype_descriptor.valid()
        ensures r.ok(), r.descriptor == *archetype_descriptor, r.n() == 0, r.capacity == if capacity <= MAXE() { capacity } else { 0 }, r.drops().len() == 0,
//@before 1
        let ghost start = archetype.store();
//@loop 1
            invariant archetype_descriptor.ok(), archetype.descriptor == *archetype_descriptor, it_1@ == archetype_descriptor.parts(), i_1 <= it_1@.len(), it_1@.len() <= 14,
                it_1@.len() == archetype_descriptor.len, archetype.store() == (Store { pointers: archetype.pointers@, ..start }), archetype.entity_count == 0, archetype.capacity == 0,
                nothing_gone(start.heap.gone),
                start.heap.blocks == Map::<int, Block>::empty(), start.ents.dangles(4),
                start.capacity == 0, start.descriptor == archetype.descriptor, archetype.pointers@.len() == 14,
                forall|c: int| 0 <= c < i_1 ==> (#[trigger] archetype.pointers@[c]).dangles(archetype_descriptor.parts()[c].align as int),
            decreases it_1@.len() - i_1
//@after 1
        let ghost o = archetype.store();
        let ghost m = capacity as int;
        proof {
            lemma_fresh(o);
            lemma_cells(o);
            if 0 < m <= MAXE() { lemma_begin(o, 0, m, 0); lemma_column(o, mixed(o.len(), 0, 0, m, o.capacity), -1); assert(0 * o.size(-1) == 0) by (nonlinear_arith); }
        }
//@before 2
        proof {
            axiom_untyped(archetype.entity_associations);
            lemma_step(o, o, archetype.store(), 0, 0, 0, m, 0, archetype.entity_associations.untyped());
        }
//@loop 2
            invariant o.ok(), m == capacity, 0 < m <= MAXE(), archetype.descriptor == *archetype_descriptor, o.descriptor == *archetype_descriptor, o.capacity == 0,
                it_2@ == archetype_descriptor.parts(), i_2 <= it_2@.len(), it_2@.len() == o.len(), o.len() <= 14, archetype.entity_count == 0,
                archetype.capacity == 0, resizing(o, archetype.store(), 0, i_2 + 1, m, 0),
            decreases it_2@.len() - i_2
//@body 2
            let ghost s = archetype.store();
            proof { lemma_column(s, mixed(o.len(), 0, index + 1, m, o.capacity), index as int);
                assert(0 <= s.size(index as int) * m <= 0xffff * 0xff_ffff) by (nonlinear_arith) requires 0 <= s.size(index as int) <= 0xffff, 0 <= m <= 0xff_ffff;
                assert(s.size(index as int) * m == m * s.size(index as int) && o.capacity * s.size(index as int) == 0) by (nonlinear_arith) requires o.capacity == 0;
            }
//@last 2
            proof { lemma_step(o, s, archetype.store(), 0, index + 1, index + 1, m, 0, archetype.pointers@[index as int]); }
//@after 2
        proof { lemma_resized(o, archetype.store(), Store { capacity: m, ..archetype.store() }, m, 0); }
//@end
//@fn archetype/mod.rs | impl Drop for Archetype | drop as Archetype::drop
        requires old(self).ok(), old(self).filled()
        ensures final(self).mem@.blocks == Map::<int, Block>::empty(), final(self).drops() == old(self).drops() + old(self).cells().take(old(self).n()),
//@start
        proof { lemma_cells(self.store()); if self.capacity == 0 { lemma_empty(self.store()); assert(self.drops() + self.cells().take(0) =~= self.drops()); } }
//@end
//@fn archetype/data_access.rs | impl Archetype | get_fuzzy_pointers_unchecked -> r as Archetype::get_fuzzy_pointers_unchecked
//@sub `[*mut u8; MAX_COMPONENTS_PER_ENTITY]` => `[Ptr<u8>; 14]`
//@sub `[core::ptr::null_mut(); MAX_COMPONENTS_PER_ENTITY]` => `no_pointers()`
        requires self.ok(), offset <= self.capacity, G::DESCRIPTOR.valid(), G::DESCRIPTOR.set().subset_of(self.set())
        ensures into_store(self.store(), G::DESCRIPTOR.archetype, r@, offset as int)
//@start
        let ghost o = self.store();
        let ghost g = G::DESCRIPTOR.archetype;
        proof { G::canonical(); lemma_cells(o); lemma_within(g.ids(), self.descriptor.ids()); }
//@loop 1
            invariant o == self.store(), o.ok(), o.descriptor.ok(), g == G::DESCRIPTOR.archetype, g.ok(), g.set().subset_of(o.descriptor.set()), offset <= o.capacity <= MAXE(),
                it_1@ == g.parts(), i_1 <= it_1@.len(), it_1@.len() == g.len, g.len <= 14, o.len() <= 14, o.pointers.len() == 14, self.descriptor.parts().len() == o.len(),
                forall|i: int| #![trigger g.ids()[i]] 0 <= i < g.len ==> i <= o.col(g.ids()[i]) < o.len(),
                forall|i: int| #![trigger pointers@[i]] 0 <= i < i_1 ==> pointers@[i].block() == o.blk(o.col(g.ids()[i])) && pointers@[i].off() == o.off(o.col(g.ids()[i])) + offset * g.parts()[i].size,
            decreases it_1@.len() - i_1
//@body 1
            let ghost c = o.col(g.ids()[index as int]);
            proof {
                lemma_same_type(o, g, index as int);
                lemma_place_of_row(o, c, offset as int, 0);
                let z = g.parts()[index as int].size as int;
                assert(offset * z == z * offset) by (nonlinear_arith);
            }
//@loop 2
                invariant_except_break check_index <= c,
                    forall|i: int| #![trigger pointers@[i]] 0 <= i < index ==> pointers@[i].block() == o.blk(o.col(g.ids()[i])) && pointers@[i].off() == o.off(o.col(g.ids()[i])) + offset * g.parts()[i].size,
                invariant o == self.store(), o.ok(), o.descriptor.ok(), g == G::DESCRIPTOR.archetype, g.ok(), index < g.len, index <= c < o.len(), c == o.col(g.ids()[index as int]),
                    offset <= o.capacity <= MAXE(), g.len <= 14, o.len() <= 14, o.pointers.len() == 14, self.descriptor.parts().len() == o.len(),
                    o.id(c) == g.ids()[index as int], *descriptor == g.parts()[index as int], descriptor.id() == g.ids()[index as int], descriptor.size == o.size(c),
                    0 <= offset * o.size(c) <= 0x7fff_ffff_ffff, offset * o.size(c) == o.size(c) * offset, o.blk(c) < 0 ==> offset * o.size(c) == 0,
                ensures
                    forall|i: int| #![trigger pointers@[i]] 0 <= i <= index ==> pointers@[i].block() == o.blk(o.col(g.ids()[i])) && pointers@[i].off() == o.off(o.col(g.ids()[i])) + offset * g.parts()[i].size,
//@body 2
                proof { lemma_col(o, check_index as int); lemma_col(o, c); }
//@end
//@fn archetype/mod.rs | impl Archetype | descriptor -> r as Archetype::descriptor
        ensures *r == self.descriptor
//@end
//@fn archetype/mod.rs | impl Archetype | new -> r as Archetype::new
        requires archetype_descriptor.ok(), archetype_descriptor.valid()
        ensures r.ok(), r.descriptor == *archetype_descriptor, r.n() == 0
//@end
//@fn archetype/data_access.rs | impl Archetype | len -> r as Archetype::len
        ensures r == self.n()
//@end
//@fn archetype/data_access.rs | impl Archetype | capacity -> r as Archetype::capacity
        ensures r == self.capacity
//@end
//@fn archetype/data_access.rs | impl Archetype | is_full -> r as Archetype::is_full
        ensures r == (self.n() == self.capacity)
//@end
//@fn archetype/data_access.rs | impl Archetype | resize_if_necessary as Archetype::resize_if_necessary
        requires old(self).ok(), old(self).n() < MAXE()
        ensures final(self).ok(), final(self).kept(old(self)), final(self).n() < final(self).capacity, final(self).entity_count == old(self).entity_count,
            final(self).rows() =~= old(self).rows(),
//@end
//@fn archetype/data_access.rs | impl Archetype | push_entity_unchecked -> r as Archetype::push_entity_unchecked
        requires old(self).ok(), old(self).n() < MAXE(), G::DESCRIPTOR.valid(), G::DESCRIPTOR.set() =~= old(self).set()
        ensures final(self).ok(), final(self).kept(old(self)), r == old(self).n(),
            final(self).rows() =~= old(self).rows().push(Row { handle: entity_handle, comps: entity.comps() }),
            entity.comps().dom() =~= old(self).set(),
//@start
        proof { G::canonical(); lemma_canonical(G::DESCRIPTOR.archetype.ids(), self.descriptor.ids()); }
//@end
//@fn archetype/data_access.rs | impl Archetype | push_uninitialized_entity -> r as Archetype::push_uninitialized_entity
        requires old(self).ok(), old(self).n() < MAXE()
        ensures final(self).ok(), final(self).kept(old(self)), r == old(self).n(), final(self).n() == old(self).n() + 1,
            final(self).rows().take(old(self).n()) =~= old(self).rows(),
//@end
//@fn archetype/data_access.rs | impl Archetype | decrement_len_unchecked as Archetype::decrement_len_unchecked
        requires old(self).ok(), old(self).n() > 0
        ensures final(self).ok(), final(self).kept(old(self)), final(self).rows() =~= old(self).rows().drop_last(),
//@end
//@fn archetype/data_access.rs | impl Archetype | swap_drop_unchecked -> r as Archetype::swap_drop_unchecked
        requires old(self).ok(), index < old(self).n(), old(self).rows()[index as int].comps.dom() =~= old(self).set()
        ensures final(self).ok(), final(self).descriptor == old(self).descriptor, r == (index != old(self).n() - 1),
            final(self).drops() == old(self).drops().push(old(self).rows()[index as int].comps),
            final(self).rows() =~= without(old(self).rows(), index as int),
//@end
//@fn archetype/data_access.rs | impl Archetype | swap_to_last_unchecked -> r as Archetype::swap_to_last_unchecked
        requires old(self).ok(), index < old(self).n()
        ensures final(self).ok(), final(self).kept(old(self)), r == (index != old(self).n() - 1),
            final(self).rows() =~= swapped(old(self).rows(), index as int, old(self).n() - 1),
//@end
//@fn archetype/data_access.rs | impl Archetype | swap_remove_unchecked -> r as Archetype::swap_remove_unchecked
        requires old(self).ok(), index < old(self).n(), old(self).rows()[index as int].comps.dom() =~= old(self).set(),
            G::DESCRIPTOR.valid(), G::DESCRIPTOR.set() =~= old(self).set()
        ensures final(self).ok(), final(self).kept(old(self)), r.1 == (index != old(self).n() - 1),
            r.0.comps() == old(self).rows()[index as int].comps,
            final(self).rows() =~= without(old(self).rows(), index as int),
//@end
}
/// The rows after row i is taken out and the last one moved into its place.
pub open spec fn without<T>(s: Seq<T>, i: int) -> Seq<T> { swapped(s, i, s.len() - 1).drop_last() }

// ---------------------------------------------------------------------------------------------------------------------
// Archetype registry.
#[derive(Copy, Clone)]
//@struct archetype_registry/sorted_archetype_key.rs SortedArchetypeKey
//@struct archetype_registry/mod.rs ArchetypeRegistry

/// std: lexicographic order of sequences.
pub open spec fn lex_lt(a: Seq<u16>, b: Seq<u16>) -> bool
    decreases a.len()
{
    if b.len() == 0 { false } else if a.len() == 0 { true } else if a[0] != b[0] { a[0] < b[0] } else { lex_lt(a.drop_first(), b.drop_first()) }
}
/// The order of the keys of one level: by identifier, then by the component types.
#[verifier::opaque]
pub open spec fn key_lt(a: u32, x: Seq<u16>, b: u32, y: Seq<u16>) -> bool { a < b || a == b && lex_lt(x, y) }

pub open spec fn key_ord(a: u32, x: Seq<u16>, b: u32, y: Seq<u16>) -> core::cmp::Ordering {
    if key_lt(a, x, b, y) { core::cmp::Ordering::Less } else if a == b && x == y { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }
}
pub open spec fn key_cmp(o: core::cmp::Ordering, a: u32, x: Seq<u16>, b: u32, y: Seq<u16>) -> bool {
    match o { core::cmp::Ordering::Less => key_lt(a, x, b, y), core::cmp::Ordering::Equal => a == b && x == y, core::cmp::Ordering::Greater => key_lt(b, y, a, x) }
}
pub open spec fn rank(o: core::cmp::Ordering) -> int { match o { core::cmp::Ordering::Less => 0, core::cmp::Ordering::Equal => 1, core::cmp::Ordering::Greater => 2 } }
/// What is looked for belongs in the k-th place.
pub open spec fn splits(os: Seq<core::cmp::Ordering>, k: int) -> bool {
    &&& forall|i: int| 0 <= i < k ==> (#[trigger] os[i]) is Less
    &&& forall|i: int| k <= i < os.len() ==> (#[trigger] os[i]) is Greater
}
pub assume_specification<F: FnOnce() -> core::cmp::Ordering> [core::cmp::Ordering::then_with] (o: core::cmp::Ordering, f: F) -> (r: core::cmp::Ordering)
    requires o is Equal ==> f.requires(())
    ensures o is Equal ==> f.ensures((), r), !(o is Equal) ==> r == o;
/// std: slice::binary_search_by; os is what the closure says of each element, and the elements are in order by it.
pub trait SearchBy<T> {
    spec fn all(&self) -> Seq<T>;
    fn search_by<F: Fn(&T) -> core::cmp::Ordering>(&self, os: Ghost<Seq<core::cmp::Ordering>>, f: F) -> (r: Result<usize, usize>)
        requires os@.len() == self.all().len(), forall|i: int| 0 <= i < self.all().len() ==> f.requires((&#[trigger] self.all()[i],)),
            forall|i: int, o: core::cmp::Ordering| 0 <= i < self.all().len() && #[trigger] f.ensures((&self.all()[i],), o) ==> o == os@[i],
            forall|i: int, j: int| 0 <= i < j < self.all().len() ==> rank(#[trigger] os@[i]) <= rank(#[trigger] os@[j]),
        ensures match r {
            Ok(k) => k < self.all().len() && os@[k as int] is Equal,
            Err(k) => k <= self.all().len() && splits(os@, k as int) };
}
impl<T> SearchBy<T> for [T] {
    open spec fn all(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn search_by<F: Fn(&T) -> core::cmp::Ordering>(&self, os: Ghost<Seq<core::cmp::Ordering>>, f: F) -> (r: Result<usize, usize>) { unimplemented!() }
}
/// `c.iter().map(|c| c.component_type_id)`, and Iterator::cmp for it.
pub struct TypeIds<'a> { pub of: &'a [ComponentDescriptor] }
pub trait HasTypeIds { spec fn parts(&self) -> Seq<ComponentDescriptor>; fn type_ids(&self) -> (r: TypeIds<'_>) ensures r.of@ == self.parts(); }
impl HasTypeIds for [ComponentDescriptor] {
    open spec fn parts(&self) -> Seq<ComponentDescriptor> { self@ }
    fn type_ids(&self) -> (r: TypeIds<'_>) { TypeIds { of: self } }
}
impl<'a> TypeIds<'a> {
    #[verifier::external_body]
    pub fn cmp(self, o: TypeIds<'_>) -> (r: core::cmp::Ordering)
        ensures match r { core::cmp::Ordering::Less => lex_lt(ids_of(self.of@), ids_of(o.of@)), core::cmp::Ordering::Equal => ids_of(self.of@) =~= ids_of(o.of@), core::cmp::Ordering::Greater => lex_lt(ids_of(o.of@), ids_of(self.of@)) }
    { unimplemented!() }
}
impl ArchetypeId {
    /// derive(Ord)
    #[verifier::external_body]
    pub fn cmp(&self, o: &ArchetypeId) -> (r: core::cmp::Ordering)
        ensures r == (if self.0 < o.0 { core::cmp::Ordering::Less } else if self.0 == o.0 { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater })
    { unimplemented!() }
}
//@lemma
pub proof fn lemma_lex_total(a: Seq<u16>, b: Seq<u16>)
    ensures lex_lt(a, b) || a =~= b || lex_lt(b, a)
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] {
        lemma_lex_total(a.drop_first(), b.drop_first());
        if a.drop_first() =~= b.drop_first() { assert forall|i: int| 0 <= i < a.len() && a.len() == b.len() implies a[i] == b[i] by { if i > 0 { assert(a.drop_first()[i - 1] == b.drop_first()[i - 1]); } } assert(a.drop_first().len() == b.drop_first().len()); }
    }
}
//@lemma
pub proof fn lemma_lex_transitive(a: Seq<u16>, b: Seq<u16>, c: Seq<u16>)
    requires lex_lt(a, b), lex_lt(b, c)
    ensures lex_lt(a, c)
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] { lemma_lex_transitive(a.drop_first(), b.drop_first(), c.drop_first()); }
}
//@lemma
pub proof fn lemma_key_cmp(o: core::cmp::Ordering, a: u32, x: Seq<u16>, b: u32, y: Seq<u16>)
    requires key_cmp(o, a, x, b, y)
    ensures o == key_ord(a, x, b, y)
{
    reveal(key_lt);
    lemma_lex_asym(x, y);
    lemma_lex_irreflexive(x);
}
//@lemma
pub proof fn lemma_searched(r: ArchetypeRegistry, d: ArchetypeDescriptor)
    requires r.inv(), d.ok()
    ensures forall|i: int, j: int| 0 <= i < j < r.searched(&d).len() ==> rank(#[trigger] r.searched(&d)[i]) <= rank(#[trigger] r.searched(&d)[j]),
        forall|a: u32, x: Seq<u16>, b: u32, y: Seq<u16>, o: core::cmp::Ordering| #[trigger] key_cmp(o, a, x, b, y) ==> o == key_ord(a, x, b, y),
        forall|k: int| 0 <= k < r.searched(&d).len() && (#[trigger] r.searched(&d)[k]) is Equal ==> r.key_found(d.ids(), k),
        forall|k: int| 0 <= k <= r.searched(&d).len() && #[trigger] splits(r.searched(&d), k) ==> r.key_absent(d.ids(), k),
{
    let l = d.len - 1;
    assert forall|a: u32, x: Seq<u16>, b: u32, y: Seq<u16>, o: core::cmp::Ordering| #[trigger] key_cmp(o, a, x, b, y) implies o == key_ord(a, x, b, y) by { lemma_key_cmp(o, a, x, b, y); }
    assert forall|i: int, j: int| 0 <= i < j < r.searched(&d).len() implies rank(#[trigger] r.searched(&d)[i]) <= rank(#[trigger] r.searched(&d)[j]) by {
        reveal(key_lt);
        let (a, x, b, y) = (r.keys(l)[i].id.0, r.key_ids(l, i), r.keys(l)[j].id.0, r.key_ids(l, j));
        assert(key_lt(a, x, b, y));
        let (t, z) = (d.archetype_id.0, d.ids());
        if key_lt(b, y, t, z) && a == b && b == t { lemma_lex_transitive(x, y, z); }
        lemma_lex_asym(x, y);
        lemma_lex_irreflexive(x);
    }
    assert forall|k: int| 0 <= k <= r.searched(&d).len() && #[trigger] splits(r.searched(&d), k) implies r.key_absent(d.ids(), k) by {
        assert forall|i: int| 0 <= i < k implies key_lt((#[trigger] r.keys(l)[i]).id.0, r.key_ids(l, i), d.archetype_id.0, d.ids()) by { assert(r.searched(&d)[i] is Less); }
        assert forall|i: int| k <= i < r.keys(l).len() implies key_lt(d.archetype_id.0, d.ids(), (#[trigger] r.keys(l)[i]).id.0, r.key_ids(l, i)) by {
            reveal(key_lt);
            assert(r.searched(&d)[i] is Greater);
            lemma_lex_total(r.key_ids(l, i), d.ids());
        }
        assert(set_id(d.ids()) == d.archetype_id.0);
    }
}

pub open spec fn has_key(keys: Seq<SortedArchetypeKey>, a: int) -> bool {
    exists|k: int| 0 <= k < keys.len() && (#[trigger] keys[k]).archetype_index == a
}

impl ArchetypeRegistry {
    pub open spec fn archs(&self) -> Seq<Archetype> { self.archetypes@ }
    pub open spec fn keys(&self, level: int) -> Seq<SortedArchetypeKey> { self.sorted_mappings@[level]@ }
    pub open spec fn key_arch(&self, level: int, k: int) -> Archetype { self.archs()[self.keys(level)[k].archetype_index as int] }
    pub open spec fn key_ids(&self, level: int, k: int) -> Seq<u16> { self.key_arch(level, k).descriptor.ids() }
    /// Every key refers to an archetype of its level and carries its identifier; keys are in order; every archetype has a key.
    pub open spec fn keys_ok(&self) -> bool {
        &&& forall|l: int, k: int| 0 <= l < 14 && 0 <= k < self.keys(l).len() ==> {
                &&& (#[trigger] self.keys(l)[k]).archetype_index < self.archs().len()
                &&& self.key_arch(l, k).descriptor.len == l + 1
                &&& self.keys(l)[k].id == self.key_arch(l, k).descriptor.archetype_id
            }
        &&& forall|l: int, i: int, k: int| 0 <= l < 14 && 0 <= i < k < self.keys(l).len() ==>
                key_lt((#[trigger] self.keys(l)[i]).id.0, self.key_ids(l, i), (#[trigger] self.keys(l)[k]).id.0, self.key_ids(l, k))
        &&& forall|a: int| 0 <= a < self.archs().len() ==> has_key(self.keys((#[trigger] self.archs()[a]).descriptor.len - 1), a)
    }
    pub open spec fn distinct(&self) -> bool {
        forall|a: int, b: int| 0 <= a < self.archs().len() && 0 <= b < self.archs().len() && a != b
            ==> (#[trigger] self.archs()[a]).descriptor.ids() != (#[trigger] self.archs()[b]).descriptor.ids()
    }
    pub open spec fn inv(&self) -> bool {
        &&& self.archs().len() <= 65534
        &&& forall|a: int| 0 <= a < self.archs().len() ==> (#[trigger] self.archs()[a]).ok()
        &&& self.keys_ok() && self.distinct()
    }
    /// The archetype of exactly these types.
    pub open spec fn is_arch(&self, ids: Seq<u16>, a: int) -> bool {
        0 <= a < self.archs().len() && self.archs()[a].descriptor.ids() == ids
    }
    pub open spec fn lacks(&self, ids: Seq<u16>) -> bool { forall|a: int| !#[trigger] self.is_arch(ids, a) }
    pub open spec fn arch_of(&self, ids: Seq<u16>) -> int { choose|a: int| self.is_arch(ids, a) }
    /// The k-th key of its level is that of the archetype.
    pub open spec fn key_found(&self, ids: Seq<u16>, k: int) -> bool {
        0 <= k < self.keys(ids.len() - 1).len() && self.key_ids(ids.len() - 1, k) == ids
    }
    /// No key is that of the archetype, and the k-th place of its level is where it belongs.
    pub open spec fn key_absent(&self, ids: Seq<u16>, k: int) -> bool {
        let l = ids.len() - 1;
        &&& 0 <= k <= self.keys(l).len()
        &&& forall|i: int| 0 <= i < k ==> key_lt((#[trigger] self.keys(l)[i]).id.0, self.key_ids(l, i), set_id(ids), ids)
        &&& forall|i: int| k <= i < self.keys(l).len() ==> key_lt(set_id(ids), ids, (#[trigger] self.keys(l)[i]).id.0, self.key_ids(l, i))
    }
    pub open spec fn key_place(&self, ids: Seq<u16>) -> int { choose|k: int| self.key_absent(ids, k) }
    /// One key, for a new archetype, inserted in its place.
    pub open spec fn adds_key(&self, o: &ArchetypeRegistry, ids: Seq<u16>) -> bool {
        let l = ids.len() - 1;
        &&& self.sorted_mappings@[l]@ =~= o.keys(l).insert(o.key_place(ids), SortedArchetypeKey { id: ArchetypeId(set_id(ids)), archetype_index: o.archs().len() as u16 })
        &&& forall|m: int| 0 <= m < 14 && m != l ==> (#[trigger] self.sorted_mappings@[m])@ == o.keys(m)
    }
    /// Archetypes are kept, their rows aside.
    pub open spec fn keeps(&self, o: &ArchetypeRegistry) -> bool {
        &&& forall|a: int| 0 <= a < o.archs().len() ==> (#[trigger] self.archs()[a]).ok() && self.archs()[a].descriptor == o.archs()[a].descriptor
    }
    /// One more archetype, of these types, and its key.
    pub open spec fn grows(&self, o: &ArchetypeRegistry, ids: Seq<u16>) -> bool {
        let n = o.archs().len() as int;
        &&& self.adds_key(o, ids) && o.lacks(ids) && n < 65534 && o.key_absent(ids, o.key_place(ids))
        &&& self.archs().len() == n + 1 && self.archs()[n].ok() && self.archs()[n].descriptor.ids() == ids && self.keeps(o)
    }
    /// The same archetypes with the same keys.
    pub open spec fn updates(&self, o: &ArchetypeRegistry) -> bool {
        self.sorted_mappings == o.sorted_mappings && self.archs().len() == o.archs().len() && self.keeps(o)
    }

//@fn archetype_registry/mod.rs | impl ArchetypeRegistry | search_level -> r as ArchetypeRegistry::search_level
//@sub `.binary_search_by(|e| {` => `.search_by(Ghost(self.searched(archetype_descriptor)), |e: &SortedArchetypeKey| -> (o: core::cmp::Ordering) requires e.archetype_index < self.archs().len(), self.inv(), archetype_descriptor.ok() ensures key_cmp(o, e.id.0, self.archs()[e.archetype_index as int].descriptor.ids(), archetype_descriptor.archetype_id.0, archetype_descriptor.ids()) { proof { reveal(key_lt); assert(self.archs()[e.archetype_index as int].ok()); }`
//@sub `.then_with(|| {` => `.then_with(|| -> (o: core::cmp::Ordering) requires e.archetype_index < self.archs().len() ensures match o { core::cmp::Ordering::Less => lex_lt(self.archs()[e.archetype_index as int].descriptor.ids(), archetype_descriptor.ids()), core::cmp::Ordering::Equal => self.archs()[e.archetype_index as int].descriptor.ids() == archetype_descriptor.ids(), core::cmp::Ordering::Greater => lex_lt(archetype_descriptor.ids(), self.archs()[e.archetype_index as int].descriptor.ids()) } {`
//@sub `.components().iter().map(|c| c.component_type_id)` => `.components().type_ids()`
        requires self.inv(), archetype_descriptor.ok()
        ensures match r { Ok(k) => self.key_found(archetype_descriptor.ids(), k as int), Err(k) => self.key_absent(archetype_descriptor.ids(), k as int) }
//@start
        proof { lemma_searched(*self, *archetype_descriptor); }
//@end
    /// Where each key of the level of these types lies relative to them.
    pub open spec fn searched(&self, d: &ArchetypeDescriptor) -> Seq<core::cmp::Ordering> {
        Seq::new(self.keys(d.len - 1).len(), |k: int| key_ord(self.keys(d.len - 1)[k].id.0, self.key_ids(d.len - 1, k), d.archetype_id.0, d.ids()))
    }

//@fn archetype_registry/mod.rs | impl ArchetypeRegistry | find_archetype -> r as ArchetypeRegistry::find_archetype
        requires self.inv(), archetype_descriptor.valid() ==> archetype_descriptor.ok()
        ensures r is None <==> !archetype_descriptor.valid() || self.lacks(archetype_descriptor.ids()),
            r matches Some(x) ==> *x == self.archs()[self.arch_of(archetype_descriptor.ids())],
//@start
        broadcast use {lemma_key_found, lemma_key_absent};
//@end
//@fn archetype_registry/mod.rs | impl ArchetypeRegistry | find_archetype_mut -> r as ArchetypeRegistry::find_archetype_mut
        requires old(self).inv(), archetype_descriptor.valid() ==> archetype_descriptor.ok()
        ensures r is None <==> !archetype_descriptor.valid() || old(self).lacks(archetype_descriptor.ids()),
            r is None ==> *final(self) == *old(self),
            r matches Some(x) ==> *x == old(self).archs()[old(self).arch_of(archetype_descriptor.ids())]
                && final(self).sorted_mappings == old(self).sorted_mappings
                && final(self).archs() =~= old(self).archs().update(old(self).arch_of(archetype_descriptor.ids()), *final(x)),
//@start
        broadcast use {lemma_key_found, lemma_key_absent};
//@end

    /// Archetype x, number a, was found or created for these types.
    pub open spec fn found(o: &ArchetypeRegistry, ids: Seq<u16>, a: int, x: &Archetype) -> bool {
        &&& x.ok() && x.descriptor.ids() == ids
        &&& if o.lacks(ids) { a == o.archs().len() && x.n() == 0 && x.drops().len() == 0 } else { a == o.arch_of(ids) && o.is_arch(ids, a) && *x == o.archs()[a] }
    }
    /// The archetypes, with a new one at the end if these types had none.
    pub open spec fn slots(o: &ArchetypeRegistry, ids: Seq<u16>, x: Archetype) -> Seq<Archetype> {
        if o.lacks(ids) { o.archs().push(x) } else { o.archs().update(o.arch_of(ids), x) }
    }
    /// The archetypes are consistent after one was found or created.
    pub open spec fn extends(&self, o: &ArchetypeRegistry, ids: Seq<u16>) -> bool {
        if o.lacks(ids) { self.grows(o, ids) } else { self.updates(o) }
    }
//@fn archetype_registry/mod.rs | impl ArchetypeRegistry | find_or_create_archetype -> r as ArchetypeRegistry::find_or_create_archetype
//@attr #[verifier::spinoff_prover]
        requires old(self).inv(), archetype_descriptor.valid() ==> archetype_descriptor.ok()
        ensures
            r is None <==> !archetype_descriptor.valid() || old(self).lacks(archetype_descriptor.ids()) && old(self).archs().len() == 65534,
            r is None ==> *final(self) == *old(self),
            r matches Some((a, x)) ==> Self::found(old(self), archetype_descriptor.ids(), a as int, x),
            r matches Some((a, x)) ==> final(self).archs() =~= Self::slots(old(self), archetype_descriptor.ids(), *final(x)),
            r matches Some((a, x)) ==> (final(x).ok() && final(x).descriptor == x.descriptor
                ==> final(self).extends(old(self), archetype_descriptor.ids()) && (final(self).extends(old(self), archetype_descriptor.ids()) ==> final(self).inv())),
//@start
        broadcast use {lemma_key_found, lemma_key_absent, lemma_extends};
//@end

//@fn archetype_registry/mod.rs | impl ArchetypeRegistry | find_or_create_archetype_adding_component -> r as ArchetypeRegistry::find_or_create_archetype_adding_component
//@attr #[verifier::spinoff_prover]
        requires old(self).inv(), described(*component_descriptor)
        ensures
            r is None <==> source_archetype_index >= old(self).archs().len()
                || !old(self).archs()[source_archetype_index as int].descriptor.can_add(component_descriptor.id())
                || old(self).lacks(old(self).archs()[source_archetype_index as int].descriptor.ids_adding(component_descriptor.id())) && old(self).archs().len() == 65534,
            r is None ==> *final(self) == *old(self),
            r matches Some((src, a, dst)) ==> *src == old(self).archs()[source_archetype_index as int] && a != source_archetype_index
                && Self::found(old(self), old(self).archs()[source_archetype_index as int].descriptor.ids_adding(component_descriptor.id()), a as int, dst),
            r matches Some((src, a, dst)) ==> final(self).archs()
                =~= Self::slots(old(self), src.descriptor.ids_adding(component_descriptor.id()), *final(dst)).update(source_archetype_index as int, *final(src)),
            r matches Some((src, a, dst)) ==> (final(src).ok() && final(src).descriptor == src.descriptor && final(dst).ok() && final(dst).descriptor == dst.descriptor
                ==> final(self).extends(old(self), src.descriptor.ids_adding(component_descriptor.id()))
                    && (final(self).extends(old(self), src.descriptor.ids_adding(component_descriptor.id())) ==> final(self).inv())),
//@start
        broadcast use {lemma_extends, lemma_adding};
//@end
//@fn archetype_registry/mod.rs | impl ArchetypeRegistry | find_or_create_archetype_removing_component -> r as ArchetypeRegistry::find_or_create_archetype_removing_component
//@attr #[verifier::spinoff_prover]
        requires old(self).inv()
        ensures
            r is None <==> source_archetype_index >= old(self).archs().len()
                || !old(self).archs()[source_archetype_index as int].descriptor.can_remove(component_descriptor.id())
                || old(self).lacks(old(self).archs()[source_archetype_index as int].descriptor.ids_removing(component_descriptor.id())) && old(self).archs().len() == 65534,
            r is None ==> *final(self) == *old(self),
            r matches Some((src, a, dst)) ==> *src == old(self).archs()[source_archetype_index as int] && a != source_archetype_index
                && Self::found(old(self), old(self).archs()[source_archetype_index as int].descriptor.ids_removing(component_descriptor.id()), a as int, dst),
            r matches Some((src, a, dst)) ==> final(self).archs()
                =~= Self::slots(old(self), src.descriptor.ids_removing(component_descriptor.id()), *final(dst)).update(source_archetype_index as int, *final(src)),
            r matches Some((src, a, dst)) ==> (final(src).ok() && final(src).descriptor == src.descriptor && final(dst).ok() && final(dst).descriptor == dst.descriptor
                ==> final(self).extends(old(self), src.descriptor.ids_removing(component_descriptor.id()))
                    && (final(self).extends(old(self), src.descriptor.ids_removing(component_descriptor.id())) ==> final(self).inv())),
//@start
        broadcast use {lemma_extends, lemma_removing};
//@end
//@fn archetype_registry/mod.rs | impl ArchetypeRegistry | get_unchecked -> r as ArchetypeRegistry::get_unchecked
//@sub `fn get_unchecked(` => `fn get_uc(`
        requires index < self.archs().len()
        ensures *r == self.archs()[index as int]
//@end
//@fn archetype_registry/mod.rs | impl ArchetypeRegistry | get_unchecked_mut -> r as ArchetypeRegistry::get_unchecked_mut
//@sub `fn get_unchecked_mut(` => `fn get_uc_mut(`
        requires index < old(self).archs().len()
        ensures *r == old(self).archs()[index as int], final(self).sorted_mappings == old(self).sorted_mappings,
            final(self).archs() =~= old(self).archs().update(index as int, *final(r)),
//@end
//@fn archetype_registry/mod.rs | impl Default for ArchetypeRegistry | default -> r as ArchetypeRegistry::default
        ensures r.archs().len() == 0, forall|l: int| 0 <= l < 14 ==> #[trigger] r.keys(l).len() == 0, r.inv()
//@end
}

//@const archetype_registry/mod.rs DEFAULT_VECTOR_CAPACITY
//@fn archetype_registry/mod.rs | - | disjoint_mut -> r as disjoint_mut
    ensures
        r is None <==> first == second || first >= old(slice)@.len() || second >= old(slice)@.len(),
        r is None ==> final(slice)@ == old(slice)@,
        r matches Some((x, y)) ==> *x == old(slice)@[first as int] && *y == old(slice)@[second as int]
            && final(slice)@ =~= old(slice)@.update(first as int, *final(x)).update(second as int, *final(y)),
//@end

//@lemma
pub proof fn lemma_lex_irreflexive(a: Seq<u16>)
    ensures !lex_lt(a, a)
    decreases a.len()
{
    if a.len() > 0 { lemma_lex_irreflexive(a.drop_first()); }
}
//@lemma
pub broadcast proof fn lemma_key_found(r: ArchetypeRegistry, ids: Seq<u16>, k: int)
    requires r.inv(), 1 <= ids.len() <= 14, #[trigger] r.key_found(ids, k)
    ensures !r.lacks(ids), r.keys(ids.len() - 1)[k].archetype_index < r.archs().len(), r.arch_of(ids) == r.keys(ids.len() - 1)[k].archetype_index,
        r.is_arch(ids, r.arch_of(ids)),
{
    let a = r.keys(ids.len() - 1)[k].archetype_index as int;
    assert(r.is_arch(ids, a));
    let b = r.arch_of(ids);
    assert(r.is_arch(ids, b));
    if a != b { assert(r.archs()[a].descriptor.ids() != r.archs()[b].descriptor.ids()); }
}
//@lemma
pub broadcast proof fn lemma_key_absent(r: ArchetypeRegistry, ids: Seq<u16>, k: int)
    requires r.inv(), 1 <= ids.len() <= 14, #[trigger] r.key_absent(ids, k)
    ensures r.lacks(ids), k == r.key_place(ids), r.key_absent(ids, r.key_place(ids)),
{
    reveal(key_lt);
    assert forall|a: int| !#[trigger] r.is_arch(ids, a) by {
        if r.is_arch(ids, a) {
            let x = r.archs()[a];
            assert(x.descriptor.ids().len() == x.descriptor.len);
            assert(has_key(r.keys(x.descriptor.len - 1), a));
            let i = choose|i: int| 0 <= i < r.keys(ids.len() - 1).len() && (#[trigger] r.keys(ids.len() - 1)[i]).archetype_index == a;
            lemma_lex_irreflexive(ids);
            assert(r.keys(ids.len() - 1)[i].id.0 == set_id(ids));
        }
    }
    let j = r.key_place(ids);
    let l = ids.len() - 1;
    assert(r.key_absent(ids, j));
    if j != k {
        let m = if j < k { j } else { k };
        lemma_key_asym(r.keys(l)[m].id.0, r.key_ids(l, m), set_id(ids), ids);
    }
}
//@lemma
pub proof fn lemma_key_asym(a: u32, x: Seq<u16>, b: u32, y: Seq<u16>)
    ensures !(key_lt(a, x, b, y) && key_lt(b, y, a, x))
{
    reveal(key_lt);
    lemma_lex_asym(x, y);
}
//@lemma
pub proof fn lemma_lex_asym(a: Seq<u16>, b: Seq<u16>)
    ensures !(lex_lt(a, b) && lex_lt(b, a))
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 { lemma_lex_asym(a.drop_first(), b.drop_first()); }
}
//@lemma
pub broadcast proof fn lemma_updates(r: ArchetypeRegistry, o: ArchetypeRegistry)
    requires o.inv(), #[trigger] r.updates(&o)
    ensures r.inv()
{
    assert(forall|m: int| #[trigger] r.keys(m) == o.keys(m));
    assert forall|m: int, k: int| 0 <= m < 14 && 0 <= k < r.keys(m).len() implies {
                &&& (#[trigger] r.keys(m)[k]).archetype_index < r.archs().len()
                &&& r.key_arch(m, k).descriptor.len == m + 1
                &&& r.keys(m)[k].id == r.key_arch(m, k).descriptor.archetype_id
                &&& r.key_ids(m, k) == o.key_ids(m, k)
            } by {
        assert(o.keys(m)[k].archetype_index < o.archs().len());
        assert(r.key_arch(m, k).descriptor == o.key_arch(m, k).descriptor);
    }
    assert forall|m: int, i: int, k: int| 0 <= m < 14 && 0 <= i < k < r.keys(m).len() implies
                key_lt((#[trigger] r.keys(m)[i]).id.0, r.key_ids(m, i), (#[trigger] r.keys(m)[k]).id.0, r.key_ids(m, k)) by {
        assert(key_lt((o.keys(m)[i]).id.0, o.key_ids(m, i), (o.keys(m)[k]).id.0, o.key_ids(m, k)));
    }
    assert forall|a: int| 0 <= a < r.archs().len() implies has_key(r.keys((#[trigger] r.archs()[a]).descriptor.len - 1), a) by {
        assert(has_key(o.keys(o.archs()[a].descriptor.len - 1), a));
    }
    assert forall|a: int, b: int| 0 <= a < r.archs().len() && 0 <= b < r.archs().len() && a != b
            implies (#[trigger] r.archs()[a]).descriptor.ids() != (#[trigger] r.archs()[b]).descriptor.ids() by {
        assert(o.archs()[a].descriptor.ids() != o.archs()[b].descriptor.ids());
    }
}
/// A new archetype with its key keeps the registry in order.
//@lemma
pub broadcast proof fn lemma_grows(r: ArchetypeRegistry, o: ArchetypeRegistry, ids: Seq<u16>)
    requires o.inv(), 1 <= ids.len() <= 14, #[trigger] r.grows(&o, ids)
    ensures r.inv()
{
    lemma_key_absent(o, ids, o.key_place(ids));
    let l = ids.len() - 1;
    let p = o.key_place(ids);
    let n = o.archs().len() as int;
    assert(r.archs()[n].descriptor.ids().len() == r.archs()[n].descriptor.len);
    assert(forall|m: int, k: int| 0 <= m < 14 && 0 <= k < o.keys(m).len() ==> (#[trigger] o.keys(m)[k]).archetype_index < n
        && r.archs()[o.keys(m)[k].archetype_index as int].descriptor == o.key_arch(m, k).descriptor);
    let back = |i: int| if i < p { i } else { i - 1 };
    assert(forall|i: int| 0 <= i < r.keys(l).len() && i != p ==> #[trigger] r.keys(l)[i] == o.keys(l)[back(i)]);
    assert forall|m: int, k: int| 0 <= m < 14 && 0 <= k < r.keys(m).len() implies {
                &&& (#[trigger] r.keys(m)[k]).archetype_index < r.archs().len()
                &&& r.key_arch(m, k).descriptor.len == m + 1
                &&& r.keys(m)[k].id == r.key_arch(m, k).descriptor.archetype_id
            } by {
        if m == l && k != p { assert(r.keys(l)[k] == o.keys(l)[back(k)]); }
        if m != l { assert(r.keys(m) == o.keys(m)); assert(o.keys(m)[k].archetype_index < n); }
    }
    assert forall|m: int, i: int, k: int| 0 <= m < 14 && 0 <= i < k < r.keys(m).len() implies
                key_lt((#[trigger] r.keys(m)[i]).id.0, r.key_ids(m, i), (#[trigger] r.keys(m)[k]).id.0, r.key_ids(m, k)) by {
        if m != l { assert(r.keys(m) == o.keys(m)); assert(o.keys(m)[i].archetype_index < n && o.keys(m)[k].archetype_index < n); }
        else {
            if i != p { assert(r.keys(l)[i] == o.keys(l)[back(i)]); }
            if k != p { assert(r.keys(l)[k] == o.keys(l)[back(k)]); }
        }
    }
    assert forall|a: int| 0 <= a < r.archs().len() implies has_key(r.keys((#[trigger] r.archs()[a]).descriptor.len - 1), a) by {
        let m = r.archs()[a].descriptor.len - 1;
        if a == n { assert(r.keys(l)[p].archetype_index == a); }
        else {
            assert(has_key(o.keys(o.archs()[a].descriptor.len - 1), a));
            let k = choose|k: int| 0 <= k < o.keys(m).len() && (#[trigger] o.keys(m)[k]).archetype_index == a;
            if m == l { let k2 = if k < p { k } else { k + 1 }; assert(r.keys(l)[k2] == o.keys(l)[back(k2)]); assert(r.keys(m)[k2].archetype_index == a); }
            else { assert(r.keys(m) == o.keys(m)); assert(r.keys(m)[k].archetype_index == a); }
        }
    }
    assert forall|a: int, b: int| 0 <= a < r.archs().len() && 0 <= b < r.archs().len() && a != b
            implies (#[trigger] r.archs()[a]).descriptor.ids() != (#[trigger] r.archs()[b]).descriptor.ids() by {
        if a == n { assert(!o.is_arch(ids, b)); }
        if b == n { assert(!o.is_arch(ids, a)); }
        if a < n && b < n { assert(o.archs()[a].descriptor.ids() != o.archs()[b].descriptor.ids()); }
    }
}

//@lemma
pub broadcast proof fn lemma_extends(r: ArchetypeRegistry, o: ArchetypeRegistry, ids: Seq<u16>)
    requires o.inv(), 1 <= ids.len() <= 14, #[trigger] r.extends(&o, ids)
    ensures r.inv()
{
    if o.lacks(ids) { lemma_grows(r, o, ids); } else { lemma_updates(r, o); }
}


// ---------------------------------------------------------------------------------------------------------------------
// Registry.
//@struct registry/registry.rs Registry

impl Registry {
    pub open spec fn archs(&self) -> Seq<Archetype> { self.archetypes.archs() }
    pub open spec fn slots(&self) -> Seq<EntityEntry> { self.entities.slots() }
    pub open spec fn slot(&self, e: Entity) -> EntityEntry { self.entities.slot(e) }
    /// The handle names a live entity.
    pub open spec fn has(&self, e: Entity) -> bool { self.entities.has(e) }
    /// The entity's components, by identifier.
    pub open spec fn comps(&self, e: Entity) -> Map<u16, Bits> { self.archs()[self.slot(e).arch()].rows()[self.slot(e).row()].comps }
    /// The entity's row in the storage block of its set.
    pub open spec fn home(&self, e: Entity) -> Archetype { self.archs()[self.slot(e).arch()] }
    /// Every row belongs to the entity whose slot points to it, and is complete; every live slot points to its row.
    pub open spec fn rows_ok(&self) -> bool {
        forall|a: int, r: int| 0 <= a < self.archs().len() && 0 <= r < self.archs()[a].n() ==> {
            let row = #[trigger] self.archs()[a].rows()[r];
            self.has(row.handle) && self.slot(row.handle).arch() == a && self.slot(row.handle).row() == r && row.comps.dom() =~= self.archs()[a].set()
        }
    }
    pub open spec fn slots_ok(&self) -> bool {
        forall|i: int| 0 <= i < self.slots().len() && (#[trigger] self.slots()[i]).live() ==> {
            let s = self.slots()[i];
            &&& 0 <= s.arch() < self.archs().len() && 0 <= s.row() < self.archs()[s.arch()].n()
            &&& self.archs()[s.arch()].rows()[s.row()].handle.idx() == i && self.archs()[s.arch()].rows()[s.row()].handle.ver() == s.ver()
        }
    }
    pub open spec fn wf(&self) -> bool {
        self.entities.inv() && self.archetypes.inv() && self.rows_ok() && self.slots_ok()
    }
    /// At most empty storage blocks were added.
    pub open spec fn quiet(&self, o: &Registry) -> bool {
        &&& self.entities.same(&o.entities)
        &&& self.archetypes.inv()
        &&& self.archs().len() >= o.archs().len()
        &&& forall|a: int| 0 <= a < o.archs().len() ==> #[trigger] self.archs()[a] == o.archs()[a]
        &&& forall|a: int| o.archs().len() <= a < self.archs().len() ==> (#[trigger] self.archs()[a]).n() == 0 && self.archs()[a].drops().len() == 0
    }
    pub open spec fn unchanged(&self, o: &Registry) -> bool {
        self.entities.same(&o.entities) && self.archetypes.updates(&o.archetypes) && self.archs() =~= o.archs()
    }
    /// Where a row for these types goes: archetype, rows before it, and drop log.
    pub open spec fn block(o: &Registry, ids: Seq<u16>) -> int { if o.archetypes.lacks(ids) { o.archs().len() as int } else { o.archetypes.arch_of(ids) } }
    pub open spec fn base(o: &Registry, ids: Seq<u16>) -> Seq<Row> { if o.archetypes.lacks(ids) { Seq::empty() } else { o.archs()[o.archetypes.arch_of(ids)].rows() } }
    pub open spec fn base_drops(o: &Registry, ids: Seq<u16>) -> Seq<Map<u16, Bits>> { if o.archetypes.lacks(ids) { Seq::empty() } else { o.archs()[o.archetypes.arch_of(ids)].drops() } }
    /// Entity e was created with these components.
    pub open spec fn created(&self, o: &Registry, e: Entity, ids: Seq<u16>, comps: Map<u16, Bits>) -> bool {
        let a = Self::block(o, ids);
        &&& self.archetypes.extends(&o.archetypes, ids)
        &&& self.archs() =~= ArchetypeRegistry::slots(&o.archetypes, ids, self.archs()[a])
        &&& self.archs()[a].rows() =~= Self::base(o, ids).push(Row { handle: e, comps })
        &&& self.archs()[a].drops() =~= Self::base_drops(o, ids)
        &&& !o.entities.exhausted() && self.entities.creates(&o.entities, e, Self::base(o, ids).len() as int, a)
        &&& comps.dom() =~= ids.to_set()
    }
}

//@lemma
pub broadcast proof fn lemma_quiet(r: Registry, o: Registry)
    requires o.wf(), #[trigger] r.quiet(&o)
    ensures r.wf(), forall|x: Entity| #[trigger] r.has(x) == o.has(x), forall|x: Entity| o.has(x) ==> #[trigger] r.comps(x) == o.comps(x)
{
    assert(r.slots() == o.slots());
    assert(r.entities.inv());
    assert forall|x: Entity| o.has(x) implies #[trigger] r.comps(x) == o.comps(x) by { let s = o.slots()[x.idx()]; assert(s.live()); }
    assert forall|a: int, k: int| 0 <= a < r.archs().len() && 0 <= k < r.archs()[a].n() implies {
            let row = #[trigger] r.archs()[a].rows()[k];
            r.has(row.handle) && r.slot(row.handle).arch() == a && r.slot(row.handle).row() == k && row.comps.dom() =~= r.archs()[a].set()
        } by {
        assert(a < o.archs().len());
        assert(r.archs()[a] == o.archs()[a]);
        let row = o.archs()[a].rows()[k];
    }
    assert forall|i: int| 0 <= i < r.slots().len() && (#[trigger] r.slots()[i]).live() implies {
            let s = r.slots()[i];
            &&& 0 <= s.arch() < r.archs().len() && 0 <= s.row() < r.archs()[s.arch()].n()
            &&& r.archs()[s.arch()].rows()[s.row()].handle.idx() == i && r.archs()[s.arch()].rows()[s.row()].handle.ver() == s.ver()
        } by {
        let s = o.slots()[i];
        assert(s.live());
        assert(r.archs()[s.arch()] == o.archs()[s.arch()]);
    }
}

//@lemma
pub broadcast proof fn lemma_unchanged(r: Registry, o: Registry)
    requires o.wf(), #[trigger] r.unchanged(&o)
    ensures r.wf(), forall|x: Entity| #[trigger] r.has(x) == o.has(x), forall|x: Entity| o.has(x) ==> #[trigger] r.comps(x) == o.comps(x)
{
    lemma_updates(r.archetypes, o.archetypes);
    assert(r.quiet(&o));
    lemma_quiet(r, o);
}
/// The rows of a block that leave a slot out are fewer than all slots.
//@lemma
pub proof fn lemma_room(o: Registry, a: int, k: int)
    requires o.wf(), 0 <= a < o.archs().len(), 0 <= k < MAXE(),
        forall|r: int| 0 <= r < o.archs()[a].n() ==> (#[trigger] o.archs()[a].rows()[r]).handle.idx() != k,
    ensures o.archs()[a].n() < MAXE()
{
    let x = o.archs()[a];
    let f = Seq::new(x.n() as nat, |r: int| x.rows()[r].handle.idx());
    let all = vstd::set_lib::set_int_range(0, MAXE());
    vstd::set_lib::lemma_int_range(0, MAXE());
    assert forall|r: int, s: int| 0 <= r < f.len() && 0 <= s < f.len() && r != s implies f[r] != f[s] by {
        let (p, q) = (x.rows()[r], x.rows()[s]);
        assert(o.slot(p.handle).row() == r && o.slot(q.handle).row() == s);
    }
    f.unique_seq_to_set();
    assert forall|i: int| f.to_set().contains(i) implies all.remove(k).contains(i) by {
        let r = f.index_of(i);
        assert(o.has(x.rows()[r].handle));
    }
    vstd::set_lib::lemma_len_subset(f.to_set(), all.remove(k));
}
/// A block with the greatest possible number of rows: every handle is in use.
//@lemma
pub proof fn lemma_crowded(o: Registry)
    requires o.wf()
    ensures o.entities.exhausted() == o.entities.full(),
        forall|a: int| 0 <= a < o.archs().len() && (#[trigger] o.archs()[a]).n() >= MAXE() ==> o.entities.full(),
        forall|ids: Seq<u16>| !#[trigger] o.archetypes.lacks(ids) && o.archs()[o.archetypes.arch_of(ids)].n() >= MAXE() ==> o.entities.full(),
{
    lemma_exhausted(o.entities);
    assert forall|a: int| 0 <= a < o.archs().len() && (#[trigger] o.archs()[a]).n() >= MAXE() implies o.entities.full() by {
        let x = o.archs()[a];
        assert forall|k: int| 0 <= k < MAXE() implies k < o.slots().len() && #[trigger] o.slots()[k].live() by {
            if !(k < o.slots().len() && o.slots()[k].live()) {
                assert forall|r: int| 0 <= r < x.n() implies (#[trigger] o.archs()[a].rows()[r]).handle.idx() != k by { assert(o.has(x.rows()[r].handle)); }
                lemma_room(o, a, k);
            }
        }
        let k = MAXE() - 1;
        assert(o.slots()[k].live());
    }
}
impl Registry {
    /// What an observer sees of a creation.
    pub open spec fn adds_entity(&self, o: &Registry, e: Entity, comps: Map<u16, Bits>) -> bool {
        &&& e != Entity::INVALID && !o.has(e) && self.has(e) && self.comps(e) == comps
        &&& forall|x: Entity| x != e ==> #[trigger] self.has(x) == o.has(x)
        &&& forall|x: Entity| x != e && o.has(x) ==> #[trigger] self.comps(x) == o.comps(x)
    }
    pub open spec fn no_drops(&self, o: &Registry) -> bool {
        &&& self.archs().len() >= o.archs().len()
        &&& forall|a: int| 0 <= a < o.archs().len() ==> (#[trigger] self.archs()[a]).drops() == o.archs()[a].drops()
        &&& forall|a: int| o.archs().len() <= a < self.archs().len() ==> (#[trigger] self.archs()[a]).drops().len() == 0
    }
//@fn registry/registry.rs | impl Registry | create_entity -> r as Registry::create_entity
//@attr #[verifier::spinoff_prover]
        requires old(self).wf()
        ensures
            r is Err <==> !G::DESCRIPTOR.valid() || old(self).archetypes.lacks(G::DESCRIPTOR.archetype.ids()) && old(self).archs().len() == 65534
                || old(self).entities.full(), // @C04 C18
            r matches Err(c) ==> c == components, // @C04 C18 C08
            r is Err ==> final(self).quiet(old(self)) && (final(self).quiet(old(self)) ==> final(self).wf()), // @C18 C03 C09
            r matches Ok(e) ==> final(self).created(old(self), e, G::DESCRIPTOR.archetype.ids(), components.comps()),
            r matches Ok(e) ==> (final(self).created(old(self), e, G::DESCRIPTOR.archetype.ids(), components.comps()) ==>
                final(self).wf() && final(self).adds_entity(old(self), e, components.comps()) && final(self).no_drops(old(self))),
//@start
        broadcast use {lemma_quiet, lemma_created};
        proof { lemma_crowded(*self); G::canonical(); }
//@end
}
/// The other rows and entities are where they were.
//@lemma
pub proof fn lemma_created_frame(r: Registry, o: Registry, e: Entity, ids: Seq<u16>, comps: Map<u16, Bits>)
    requires o.wf(), 1 <= ids.len() <= 14, r.created(&o, e, ids, comps)
    ensures
        r.archetypes.inv(), r.entities.inv(), e != Entity::INVALID, !o.has(e), r.has(e),
        forall|x: Entity| x != e ==> #[trigger] r.has(x) == o.has(x),
        forall|x: Entity| x != e && o.has(x) ==> #[trigger] r.slot(x) == o.slot(x),
        r.slot(e).row() == Registry::base(&o, ids).len(), r.slot(e).arch() == Registry::block(&o, ids),
        0 <= Registry::block(&o, ids) <= o.archs().len(), Registry::block(&o, ids) < r.archs().len(), o.archs().len() <= r.archs().len(),
        r.archs()[Registry::block(&o, ids)].set() == ids.to_set(),
        Registry::block(&o, ids) < o.archs().len() ==> Registry::base(&o, ids) == o.archs()[Registry::block(&o, ids)].rows()
            && Registry::base_drops(&o, ids) == o.archs()[Registry::block(&o, ids)].drops(),
        Registry::block(&o, ids) == o.archs().len() ==> Registry::base(&o, ids).len() == 0 && r.archs().len() == o.archs().len() + 1
            && Registry::base_drops(&o, ids).len() == 0,
        Registry::block(&o, ids) < o.archs().len() ==> r.archs().len() == o.archs().len(),
        forall|b: int| 0 <= b < o.archs().len() && b != Registry::block(&o, ids) ==> #[trigger] r.archs()[b] == o.archs()[b],
        forall|b: int| 0 <= b < o.archs().len() ==> (#[trigger] r.archs()[b]).set() == o.archs()[b].set(),
        forall|i: int| 0 <= i < r.slots().len() && i != e.idx() ==> i < o.slots().len() && #[trigger] r.slots()[i] == o.slots()[i],
{
    lemma_extends(r.archetypes, o.archetypes, ids);
    lemma_exhausted(o.entities);
    let a = Registry::block(&o, ids);
    let n = Registry::base(&o, ids).len() as int;
    assert(!o.archetypes.lacks(ids) ==> o.archetypes.is_arch(ids, a));
    assert(r.archs()[a].rows().len() == n + 1);
    if !o.archetypes.lacks(ids) { assert(r.archs()[a].ok()); assert(r.archs()[a].descriptor == o.archs()[a].descriptor); }
    lemma_create(o.entities, r.entities, e, n, a);
}
//@lemma
pub broadcast proof fn lemma_created(r: Registry, o: Registry, e: Entity, ids: Seq<u16>, comps: Map<u16, Bits>)
    requires o.wf(), 1 <= ids.len() <= 14, #[trigger] r.created(&o, e, ids, comps)
    ensures r.wf(), r.adds_entity(&o, e, comps), r.no_drops(&o)
{
    hide(EntityRegistry::inv);
    hide(ArchetypeRegistry::inv);
    hide(EntityRegistry::creates);
    hide(ArchetypeRegistry::extends);
    hide(ArchetypeRegistry::slots);
    hide(ArchetypeRegistry::lacks);
    lemma_created_frame(r, o, e, ids, comps);
    let a = Registry::block(&o, ids);
    let n = Registry::base(&o, ids).len() as int;
    assert(r.archs()[a].rows().len() == n + 1);
    assert forall|b: int, k: int| 0 <= b < r.archs().len() && 0 <= k < r.archs()[b].n() implies {
            let row = #[trigger] r.archs()[b].rows()[k];
            r.has(row.handle) && r.slot(row.handle).arch() == b && r.slot(row.handle).row() == k && row.comps.dom() =~= r.archs()[b].set()
        } by {
        if b == a && k == n { } else {
            let row = o.archs()[b].rows()[k];
            assert(o.has(row.handle));
            assert(r.archs()[b].rows()[k] == row);
        }
    }
    assert(r.rows_ok());
    assert(r.slots_ok());
    assert(r.comps(e) == comps);
    assert forall|x: Entity| x != e && o.has(x) implies #[trigger] r.comps(x) == o.comps(x) by {
        let s = o.slots()[x.idx()];
        assert(s.live());
    }
}

impl Registry {
    /// The rows of e's block without e's.
    pub open spec fn rest(&self, e: Entity) -> Seq<Row> { without(self.home(e).rows(), self.slot(e).row()) }
    /// The entity whose row is the last one of e's block.
    pub open spec fn last(&self, e: Entity) -> Entity { self.home(e).rows()[self.home(e).n() - 1].handle }
    pub open spec fn is_last(&self, e: Entity) -> bool { self.slot(e).row() == self.home(e).n() - 1 }
    /// e's row was taken out, and e's slot has changed.
    pub open spec fn vacates(&self, o: &Registry, e: Entity) -> bool {
        &&& o.has(e)
        &&& self.archs()[o.slot(e).arch()].rows() =~= o.rest(e)
        &&& if o.is_last(e) { self.slots() =~= o.slots().update(e.idx(), self.slot(e)) } else {
                &&& self.slots() =~= o.slots().update(o.last(e).idx(), self.slot(o.last(e))).update(e.idx(), self.slot(e))
                &&& self.slot(o.last(e)).is(o.last(e).ver(), o.slot(e).row(), o.slot(e).arch())
            }
    }
    /// e was destroyed or removed.
    pub open spec fn freed(&self, o: &Registry, e: Entity) -> bool {
        &&& self.vacates(o, e)
        &&& self.archetypes.updates(&o.archetypes)
        &&& self.archs() =~= o.archs().update(o.slot(e).arch(), self.home_of(o, e))
        &&& self.slot(e).is((e.ver() + 1) % 256, o.entities.head(), 65535) && self.entities.head() == e.idx()
    }
    pub open spec fn home_of(&self, o: &Registry, e: Entity) -> Archetype { self.archs()[o.slot(e).arch()] }
    /// What an observer sees of a destruction or removal.
    pub open spec fn drops_entity(&self, o: &Registry, e: Entity) -> bool {
        &&& !self.has(e)
        &&& forall|x: Entity| x != e ==> #[trigger] self.has(x) == o.has(x)
        &&& forall|x: Entity| x != e && o.has(x) ==> #[trigger] self.comps(x) == o.comps(x)
    }
//@fn registry/registry.rs | impl Registry | destroy_entity -> r as Registry::destroy_entity
//@attr #[verifier::spinoff_prover]
        requires old(self).wf()
        ensures
            r == old(self).has(entity),
            !r ==> final(self).unchanged(old(self)) && (final(self).unchanged(old(self)) ==> final(self).wf()),
            r ==> final(self).freed(old(self), entity),
            r ==> final(self).home_of(old(self), entity).drops() == old(self).home(entity).drops().push(old(self).comps(entity)),
            r ==> (final(self).freed(old(self), entity) ==> final(self).wf() && final(self).drops_entity(old(self), entity)),
//@start
        broadcast use {lemma_freed, lemma_unchanged};
        proof { if self.has(entity) { lemma_distinct(*self, entity); } }
//@end
//@fn registry/registry.rs | impl Registry | remove_entity -> r as Registry::remove_entity
//@attr #[verifier::spinoff_prover]
        requires old(self).wf()
        ensures
            r is Some <==> old(self).has(entity) && G::DESCRIPTOR.valid() && G::DESCRIPTOR.set() =~= old(self).home(entity).set(),
            r is None ==> final(self).unchanged(old(self)) && (final(self).unchanged(old(self)) ==> final(self).wf()),
            r matches Some(c) ==> c.comps() == old(self).comps(entity),
            r is Some ==> final(self).freed(old(self), entity),
            r is Some ==> final(self).no_drops(old(self)),
            r is Some ==> (final(self).freed(old(self), entity) ==> final(self).wf() && final(self).drops_entity(old(self), entity)),
//@start
        broadcast use {lemma_freed, lemma_unchanged};
        proof {
            G::canonical();
            if self.has(entity) {
                lemma_distinct(*self, entity);
                if G::DESCRIPTOR.valid() { lemma_exact(G::DESCRIPTOR.archetype, self.home(entity).descriptor); }
            }
        }
//@end
}
//@lemma
pub proof fn lemma_exact(a: ArchetypeDescriptor, b: ArchetypeDescriptor)
    requires a.ok(), b.ok()
    ensures (a.set() =~= b.set()) == (a.len == b.len && a.set().subset_of(b.set()))
{
    a.ids().unique_seq_to_set();
    b.ids().unique_seq_to_set();
    assert(a.ids().len() == a.len && b.ids().len() == b.len);
    if a.len == b.len && a.set().subset_of(b.set()) { vstd::set_lib::lemma_subset_equality(a.set(), b.set()); }
}
/// The entity in the last row of e's block lives, and in another slot unless it is e.
//@lemma
pub proof fn lemma_distinct(o: Registry, e: Entity)
    requires o.wf(), o.has(e)
    ensures
        0 <= o.slot(e).arch() < o.archs().len(), 0 <= o.slot(e).row() < o.home(e).n(),
        o.home(e).rows()[o.slot(e).row()].handle == e, o.comps(e).dom() =~= o.home(e).set(),
        o.has(o.last(e)), o.slot(o.last(e)).row() == o.home(e).n() - 1, o.slot(o.last(e)).arch() == o.slot(e).arch(),
        !o.is_last(e) ==> o.last(e).idx() != e.idx(),
{
    let s = o.slots()[e.idx()];
    assert(s.live());
    let h = o.home(e).rows()[s.row()].handle;
    assert(h.handle == e.handle);
}
/// Slots after e's row was taken out.
//@lemma
pub proof fn lemma_vacates(r: Registry, o: Registry, e: Entity)
    requires o.wf(), r.vacates(&o, e)
    ensures
        o.has(e), r.slots().len() == o.slots().len(), r.archs()[o.slot(e).arch()].rows() == o.rest(e),
        forall|i: int| 0 <= i < o.slots().len() && i != e.idx() && i != o.last(e).idx() ==> #[trigger] r.slots()[i] == o.slots()[i],
        forall|x: Entity| x.idx() != e.idx() ==> #[trigger] r.has(x) == o.has(x),
        forall|x: Entity| x.idx() != e.idx() && x != o.last(e) && o.has(x) ==> #[trigger] r.slot(x) == o.slot(x),
        !o.is_last(e) ==> r.has(o.last(e)) && r.slot(o.last(e)).is(o.last(e).ver(), o.slot(e).row(), o.slot(e).arch()),
        o.rest(e).len() == o.home(e).n() - 1,
        forall|k: int| 0 <= k < o.rest(e).len() && k != o.slot(e).row() ==> #[trigger] o.rest(e)[k] == o.home(e).rows()[k],
        !o.is_last(e) ==> o.rest(e)[o.slot(e).row()] == o.home(e).rows()[o.home(e).n() - 1],
{
    lemma_distinct(o, e);
    assert(o.slot(o.last(e)).live());
    assert forall|x: Entity| #[trigger] x.idx() == o.last(e).idx() && x.ver() == o.last(e).ver() implies x == o.last(e) by { assert(x.handle == o.last(e).handle); }
}
//@lemma
pub broadcast proof fn lemma_freed(r: Registry, o: Registry, e: Entity)
    requires o.wf(), #[trigger] r.freed(&o, e)
    ensures r.wf(), r.drops_entity(&o, e)
{
    hide(EntityRegistry::inv);
    hide(ArchetypeRegistry::inv);
    hide(Registry::vacates);
    hide(without);
    lemma_vacates(r, o, e);
    lemma_distinct(o, e);
    lemma_updates(r.archetypes, o.archetypes);
    lemma_freed_entities(r, o, e);
    let a = o.slot(e).arch();
    let l = o.last(e);
    assert(r.archs()[a].rows().len() == o.home(e).n() - 1);
    assert forall|b: int, k: int| 0 <= b < r.archs().len() && 0 <= k < r.archs()[b].n() implies {
            let row = #[trigger] r.archs()[b].rows()[k];
            r.has(row.handle) && r.slot(row.handle).arch() == b && r.slot(row.handle).row() == k && row.comps.dom() =~= r.archs()[b].set()
        } by {
        let old_k = if b == a && k == o.slot(e).row() { o.home(e).n() - 1 } else { k };
        let row = o.archs()[b].rows()[old_k];
        assert(o.has(row.handle));
        assert(r.archs()[b].rows()[k] == row);
    }
    assert forall|i: int| 0 <= i < r.slots().len() && (#[trigger] r.slots()[i]).live() implies {
            let s = r.slots()[i];
            &&& 0 <= s.arch() < r.archs().len() && 0 <= s.row() < r.archs()[s.arch()].n()
            &&& r.archs()[s.arch()].rows()[s.row()].handle.idx() == i && r.archs()[s.arch()].rows()[s.row()].handle.ver() == s.ver()
        } by {
        let s = o.slots()[i];
        assert(i != e.idx());
        if i == l.idx() { assert(r.slots()[i] == r.slot(l)); } else { assert(r.slots()[i] == s); assert(s.live()); }
    }
    assert forall|x: Entity| x != e && o.has(x) implies #[trigger] r.comps(x) == o.comps(x) by {
        let s = o.slots()[x.idx()];
        assert(s.live());
        assert(r.has(x));
    }
}
//@lemma
pub proof fn lemma_freed_entities(r: Registry, o: Registry, e: Entity)
    requires o.wf(), r.freed(&o, e)
    ensures r.entities.inv(), !r.has(e), forall|x: Entity| x != e ==> #[trigger] r.has(x) == o.has(x)
{
    lemma_vacates(r, o, e);
    lemma_distinct(o, e);
    assert forall|x: Entity| x.idx() == e.idx() && x.ver() == e.ver() implies x == e by { assert(x.handle == e.handle); }
    let l = o.last(e);
    let mid = if o.is_last(e) { o.slots() } else { o.slots().update(l.idx(), r.slot(l)) };
    if !o.is_last(e) { lemma_move_slot(o.slots(), mid, o.entities.head(), l.idx()); }
    lemma_free_slot(mid, r.slots(), o.entities.head(), e.idx());
}

impl Registry {
    /// e's row was moved to the block of these types.
    pub open spec fn moved(&self, o: &Registry, e: Entity, ids: Seq<u16>, comps: Map<u16, Bits>) -> bool {
        let a = Self::block(o, ids);
        &&& self.vacates(o, e)
        &&& self.archetypes.extends(&o.archetypes, ids)
        &&& self.archs() =~= ArchetypeRegistry::slots(&o.archetypes, ids, self.archs()[a]).update(o.slot(e).arch(), self.home_of(o, e))
        &&& a != o.slot(e).arch()
        &&& self.archs()[a].rows() =~= Self::base(o, ids).push(Row { handle: e, comps })
        &&& self.slot(e).is(e.ver(), Self::base(o, ids).len() as int, a) && self.entities.head() == o.entities.head()
        &&& comps.dom() =~= ids.to_set()
    }
    /// What an observer sees of a change of e's components.
    pub open spec fn changes_entity(&self, o: &Registry, e: Entity, comps: Map<u16, Bits>) -> bool {
        &&& self.comps(e) == comps
        &&& forall|x: Entity| #[trigger] self.has(x) == o.has(x)
        &&& forall|x: Entity| x != e && o.has(x) ==> #[trigger] self.comps(x) == o.comps(x)
    }
//@fn registry/registry.rs | impl Registry | add_component -> r as Registry::add_component
//@attr #[verifier::spinoff_prover]
        requires old(self).wf()
        ensures
            r is Err <==> !old(self).has(entity) || !old(self).home(entity).descriptor.can_add(C::ID.0)
                || old(self).archetypes.lacks(old(self).home(entity).descriptor.ids_adding(C::ID.0)) && old(self).archs().len() == 65534,
            r matches Err(c) ==> c == component,
            r is Err ==> final(self).unchanged(old(self)) && (final(self).unchanged(old(self)) ==> final(self).wf()),
            r is Ok ==> final(self).moved(old(self), entity, old(self).home(entity).descriptor.ids_adding(C::ID.0), old(self).comps(entity).insert(C::ID.0, component.bits())),
            r is Ok ==> (final(self).moved(old(self), entity, old(self).home(entity).descriptor.ids_adding(C::ID.0), old(self).comps(entity).insert(C::ID.0, component.bits()))
                ==> final(self).wf() && final(self).changes_entity(old(self), entity, old(self).comps(entity).insert(C::ID.0, component.bits()))),
            r is Ok ==> final(self).no_drops(old(self)),
//@start
        hide(Registry::rows_ok);
        hide(Registry::slots_ok);
        hide(ArchetypeRegistry::keys_ok);
        hide(ArchetypeRegistry::distinct);
        hide(listed);
        hide(ArchetypeDescriptor::ok);
        broadcast use {lemma_unchanged, lemma_moved, lemma_merge_adding};
        proof {
            C::own_id();
            if self.has(entity) {
                lemma_distinct(*self, entity);
                if self.home(entity).descriptor.can_add(C::ID.0) { lemma_ids_adding(self.home(entity).descriptor, C::ID.0); lemma_room_for(*self, entity, self.home(entity).descriptor.ids_adding(C::ID.0)); }
            }
        }
//@end
//@fn registry/registry.rs | impl Registry | remove_component -> r as Registry::remove_component
//@attr #[verifier::spinoff_prover]
        requires old(self).wf()
        ensures
            r is Err <==> !old(self).has(entity) || !old(self).home(entity).descriptor.can_remove(C::ID.0)
                || old(self).archetypes.lacks(old(self).home(entity).descriptor.ids_removing(C::ID.0)) && old(self).archs().len() == 65534,
            r is Err ==> final(self).unchanged(old(self)) && (final(self).unchanged(old(self)) ==> final(self).wf()),
            r matches Ok(c) ==> c.bits() == old(self).comps(entity)[C::ID.0],
            r is Ok ==> final(self).moved(old(self), entity, old(self).home(entity).descriptor.ids_removing(C::ID.0), old(self).comps(entity).remove(C::ID.0)),
            r is Ok ==> (final(self).moved(old(self), entity, old(self).home(entity).descriptor.ids_removing(C::ID.0), old(self).comps(entity).remove(C::ID.0))
                ==> final(self).wf() && final(self).changes_entity(old(self), entity, old(self).comps(entity).remove(C::ID.0))),
            r is Ok ==> final(self).no_drops(old(self)),
//@start
        hide(Registry::rows_ok);
        hide(Registry::slots_ok);
        hide(ArchetypeRegistry::keys_ok);
        hide(ArchetypeRegistry::distinct);
        hide(listed);
        hide(ArchetypeDescriptor::ok);
        broadcast use {lemma_unchanged, lemma_moved, lemma_merge_removing};
        proof {
            C::own_id();
            if self.has(entity) {
                lemma_distinct(*self, entity);
                if self.home(entity).descriptor.can_remove(C::ID.0) { lemma_ids_removing(self.home(entity).descriptor, C::ID.0); lemma_room_for(*self, entity, self.home(entity).descriptor.ids_removing(C::ID.0)); }
            }
        }
//@end
}

//@lemma
pub proof fn lemma_ids_adding(o: ArchetypeDescriptor, x: u16)
    requires o.ok(), o.can_add(x)
    ensures o.ids_adding(x).to_set() == o.set().insert(x), o.ids_adding(x) != o.ids(), o.ids_adding(x).len() == o.len + 1
{
    let (a, b) = (o.ids(), o.ids_adding(x));
    lemma_place_exists(a, x);
    let p = place_of(a, x);
    assert(place(a, p, x));
    assert(b.len() == a.len() + 1);
    assert forall|y: u16| b.to_set().contains(y) == o.set().insert(x).contains(y) by {
        if a.contains(y) { let k = a.index_of(y); assert(b[if k < p { k } else { k + 1 }] == y); }
        if y == x { assert(b[p] == x); }
        if b.contains(y) && y != x { let k = b.index_of(y); assert(a[if k < p { k } else { k - 1 }] == y); }
    }
    assert(b.to_set() =~= o.set().insert(x));
}
//@lemma
pub proof fn lemma_ids_removing(o: ArchetypeDescriptor, x: u16)
    requires o.ok(), o.can_remove(x)
    ensures o.ids_removing(x).to_set() == o.set().remove(x), o.ids_removing(x) != o.ids(), 1 <= o.ids_removing(x).len() == o.len - 1 <= 14
{
    let (a, b) = (o.ids(), o.ids_removing(x));
    assert(a.contains(x));
    let p = a.index_of(x);
    assert(b.len() == a.len() - 1);
    assert forall|y: u16| b.to_set().contains(y) == o.set().remove(x).contains(y) by {
        if a.contains(y) && y != x { let k = a.index_of(y); assert(b[if k < p { k } else { k - 1 }] == y); }
        if b.contains(y) { let k = b.index_of(y); assert(a[if k < p { k } else { k + 1 }] == y); if y == x { assert(a[p] == x); } }
    }
    assert(b.to_set() =~= o.set().remove(x));
}
/// The block of another set than e's has room for e.
//@lemma
pub proof fn lemma_room_for(o: Registry, e: Entity, ids: Seq<u16>)
    requires o.wf(), o.has(e), ids != o.home(e).descriptor.ids()
    ensures Registry::block(&o, ids) != o.slot(e).arch(), Registry::base(&o, ids).len() < MAXE(), 0 <= Registry::block(&o, ids) <= o.archs().len(),
        !o.archetypes.lacks(ids) ==> o.archs()[Registry::block(&o, ids)].n() < MAXE(),
{
    lemma_distinct(o, e);
    let a = Registry::block(&o, ids);
    if !o.archetypes.lacks(ids) {
        assert(o.archetypes.is_arch(ids, a));
        assert forall|r: int| 0 <= r < o.archs()[a].n() implies (#[trigger] o.archs()[a].rows()[r]).handle.idx() != e.idx() by {
            let x = o.archs()[a].rows()[r].handle;
            assert(o.has(x));
        }
        lemma_room(o, a, e.idx());
    }
}

/// Copying the common components over whatever is stored in the new row, and writing the added one.
//@lemma
pub broadcast proof fn lemma_merge_adding(old: Map<u16, Bits>, src: Map<u16, Bits>, set: Set<u16>, x: u16, v: Bits)
    requires old.dom().subset_of(set), set == src.dom().insert(x)
    ensures #[trigger] old.union_prefer_right(src.restrict(set)).insert(x, v) == src.insert(x, v)
{
    assert(old.union_prefer_right(src.restrict(set)).insert(x, v) =~= src.insert(x, v));
}
//@lemma
pub broadcast proof fn lemma_merge_removing(old: Map<u16, Bits>, src: Map<u16, Bits>, set: Set<u16>, x: u16)
    requires old.dom().subset_of(set), #[trigger] src.dom().remove(x) == set
    ensures #[trigger] old.union_prefer_right(src.restrict(set)) == src.remove(x)
{
    assert(old.union_prefer_right(src.restrict(set)) =~= src.remove(x));
}

//@lemma
pub proof fn lemma_moved_frame(r: Registry, o: Registry, e: Entity, ids: Seq<u16>, comps: Map<u16, Bits>)
    requires o.wf(), 1 <= ids.len() <= 14, r.moved(&o, e, ids, comps)
    ensures
        r.archetypes.inv(), r.entities.inv(), r.has(e), r.slot(e).arch() == Registry::block(&o, ids), r.slot(e).row() == Registry::base(&o, ids).len(),
        forall|x: Entity| #[trigger] r.has(x) == o.has(x),
        r.archs().len() >= o.archs().len(), 0 <= Registry::block(&o, ids) < r.archs().len(), r.archs().len() <= o.archs().len() + 1,
        Registry::block(&o, ids) < o.archs().len() ==> Registry::base(&o, ids) == o.archs()[Registry::block(&o, ids)].rows() && r.archs().len() == o.archs().len(),
        Registry::block(&o, ids) >= o.archs().len() ==> Registry::base(&o, ids).len() == 0,
        r.archs()[Registry::block(&o, ids)].set() == ids.to_set(),
        r.home_of(&o, e).rows() == o.rest(e),
        forall|b: int| 0 <= b < o.archs().len() && b != Registry::block(&o, ids) && b != o.slot(e).arch() ==> #[trigger] r.archs()[b] == o.archs()[b],
        forall|b: int| 0 <= b < o.archs().len() ==> (#[trigger] r.archs()[b]).set() == o.archs()[b].set(),
{
    lemma_vacates(r, o, e);
    lemma_distinct(o, e);
    lemma_extends(r.archetypes, o.archetypes, ids);
    let a = Registry::block(&o, ids);
    assert(!o.archetypes.lacks(ids) ==> o.archetypes.is_arch(ids, a));
    if !o.archetypes.lacks(ids) { assert(r.archs()[a].ok()); assert(r.archs()[a].descriptor == o.archs()[a].descriptor); }
    assert forall|x: Entity| #[trigger] x.idx() == e.idx() && x.ver() == e.ver() implies x == e by { assert(x.handle == e.handle); }
    let l = o.last(e);
    let mid = if o.is_last(e) { o.slots() } else { o.slots().update(l.idx(), r.slot(l)) };
    if !o.is_last(e) { lemma_move_slot(o.slots(), mid, o.entities.head(), l.idx()); }
    lemma_move_slot(mid, r.slots(), o.entities.head(), e.idx());
}
//@lemma
pub broadcast proof fn lemma_moved(r: Registry, o: Registry, e: Entity, ids: Seq<u16>, comps: Map<u16, Bits>)
    requires o.wf(), 1 <= ids.len() <= 14, #[trigger] r.moved(&o, e, ids, comps)
    ensures r.wf(), r.changes_entity(&o, e, comps)
{
    hide(EntityRegistry::inv);
    hide(ArchetypeRegistry::inv);
    hide(ArchetypeRegistry::extends);
    hide(ArchetypeRegistry::slots);
    hide(ArchetypeRegistry::lacks);
    hide(Registry::vacates);
    hide(without);
    lemma_moved_frame(r, o, e, ids, comps);
    lemma_vacates(r, o, e);
    lemma_distinct(o, e);
    let c = o.slot(e).arch();
    let a = Registry::block(&o, ids);
    let n = Registry::base(&o, ids).len() as int;
    let l = o.last(e);
    assert(r.archs()[a].rows().len() == n + 1);
    assert(r.archs()[c].rows().len() == o.home(e).n() - 1);
    assert forall|b: int, k: int| 0 <= b < r.archs().len() && 0 <= k < r.archs()[b].n() implies {
            let row = #[trigger] r.archs()[b].rows()[k];
            r.has(row.handle) && r.slot(row.handle).arch() == b && r.slot(row.handle).row() == k && row.comps.dom() =~= r.archs()[b].set()
        } by {
        if b == a && k == n { } else {
            let old_k = if b == c && k == o.slot(e).row() { o.home(e).n() - 1 } else { k };
            let row = o.archs()[b].rows()[old_k];
            assert(o.has(row.handle));
            assert(r.archs()[b].rows()[k] == row);
        }
    }
    assert forall|i: int| 0 <= i < r.slots().len() && (#[trigger] r.slots()[i]).live() implies {
            let s = r.slots()[i];
            &&& 0 <= s.arch() < r.archs().len() && 0 <= s.row() < r.archs()[s.arch()].n()
            &&& r.archs()[s.arch()].rows()[s.row()].handle.idx() == i && r.archs()[s.arch()].rows()[s.row()].handle.ver() == s.ver()
        } by {
        let s = o.slots()[i];
        if i == e.idx() { assert(r.slots()[i] == r.slot(e)); }
        else if i == l.idx() { assert(r.slots()[i] == r.slot(l)); }
        else { assert(r.slots()[i] == s); assert(s.live()); }
    }
    assert(r.comps(e) == comps);
    assert forall|x: Entity| x != e && o.has(x) implies #[trigger] r.comps(x) == o.comps(x) by {
        let s = o.slots()[x.idx()];
        assert(s.live());
        assert(r.has(x));
    }
}

// ---------------------------------------------------------------------------------------------------------------------
// Reads and writes through the registry.

/// Stands for G::RefTuple<'a>: references to the components of one row, by identifier.
#[verifier::external_body]
#[verifier::reject_recursive_types(G)]
pub struct RefTuple<'a, G> { p: core::marker::PhantomData<&'a G> }
impl<'a, G> RefTuple<'a, G> { pub uninterp spec fn comps(&self) -> Map<u16, Bits>; }
/// &'a mut MutRefTuple<G> stands for G::MutRefTuple<'a>: the values behind the mutable references.
#[verifier::external_body]
#[verifier::reject_recursive_types(G)]
pub struct MutRefTuple<G> { p: core::marker::PhantomData<G> }
impl<G> MutRefTuple<G> { pub uninterp spec fn comps(&self) -> Map<u16, Bits>; }
/// Stands for G::SliceRefTuple<'a>: for every row, the components of the group.
#[verifier::external_body]
#[verifier::reject_recursive_types(G)]
pub struct SliceRefTuple<'a, G> { p: core::marker::PhantomData<&'a G> }
impl<'a, G> SliceRefTuple<'a, G> { pub uninterp spec fn rows(&self) -> Seq<Map<u16, Bits>>; }
/// &'a mut SliceMutRefTuple<G> stands for G::SliceMutRefTuple<'a>.
#[verifier::external_body]
#[verifier::reject_recursive_types(G)]
pub struct SliceMutRefTuple<G> { p: core::marker::PhantomData<G> }
impl<G> SliceMutRefTuple<G> { pub uninterp spec fn rows(&self) -> Seq<Map<u16, Bits>>; }

/// The functions of the tuples that groups are (see DESIGN.md).
#[verifier::external_body]
pub unsafe fn pointers_as_ref_tuple<'a, G: ComponentGroup>(mem: &'a Mem, pointers: &[Ptr<u8>; 14]) -> (r: RefTuple<'a, G>)
    requires G::DESCRIPTOR.valid(), pointing(mem@, G::DESCRIPTOR.archetype, pointers@, 1)
    ensures r.comps() == gathered(mem@, G::DESCRIPTOR.archetype, pointers@, 0, 1)
{ unimplemented!() }
#[verifier::external_body]
pub unsafe fn pointers_as_mut_ref_tuple<'a, G: ComponentGroup>(mem: &'a mut Mem, pointers: &[Ptr<u8>; 14]) -> (r: &'a mut MutRefTuple<G>)
    requires G::DESCRIPTOR.valid(), pointing(old(mem)@, G::DESCRIPTOR.archetype, pointers@, 1), apart(G::DESCRIPTOR.archetype, pointers@, 1)
    ensures r.comps() == gathered(old(mem)@, G::DESCRIPTOR.archetype, pointers@, 0, 1),
        overwrites(old(mem)@, final(mem)@, G::DESCRIPTOR.archetype, pointers@, seq![final(r).comps()])
{ unimplemented!() }
#[verifier::external_body]
pub unsafe fn slice_unchecked<'a, G: ComponentGroup>(mem: &'a Mem, pointers: &[Ptr<u8>; 14], n: usize) -> (r: SliceRefTuple<'a, G>)
    requires G::DESCRIPTOR.valid(), pointing(mem@, G::DESCRIPTOR.archetype, pointers@, n as int)
    ensures r.rows() == gathered_all(mem@, G::DESCRIPTOR.archetype, pointers@, n as int)
{ unimplemented!() }
#[verifier::external_body]
pub unsafe fn slice_unchecked_mut<'a, G: ComponentGroup>(mem: &'a mut Mem, pointers: &[Ptr<u8>; 14], n: usize) -> (r: &'a mut SliceMutRefTuple<G>)
    requires G::DESCRIPTOR.valid(), pointing(old(mem)@, G::DESCRIPTOR.archetype, pointers@, n as int), apart(G::DESCRIPTOR.archetype, pointers@, n as int)
    ensures r.rows() == gathered_all(old(mem)@, G::DESCRIPTOR.archetype, pointers@, n as int), final(r).rows().len() == n,
        overwrites(old(mem)@, final(mem)@, G::DESCRIPTOR.archetype, pointers@, final(r).rows())
{ unimplemented!() }
pub open spec fn gathered_all(h: Heap, d: ArchetypeDescriptor, p: Seq<Ptr<u8>>, n: int) -> Seq<Map<u16, Bits>> { Seq::new(n as nat, |k: int| gathered(h, d, p, k, n)) }

impl ArchetypeDescriptor {
//@fn descriptors/archetype_descriptor.rs | impl ArchetypeDescriptor | has_component -> r as ArchetypeDescriptor::has_component
        requires self.len <= 14, sorted(self.ids())
        ensures r == self.set().contains(C::ID.0)
//@start
        proof {
            assert(self.parts().len() == self.len);
            assert forall|k: int| place(self.ids(), k, C::ID.0) implies !self.ids().contains(C::ID.0) by {
                if self.ids().contains(C::ID.0) { let j = self.ids().index_of(C::ID.0); assert(self.ids()[j] == C::ID.0); }
            }
        }
//@end
}

/// Row k's components c, with those of the group taken from v.
pub open spec fn overwritten(c: Map<u16, Bits>, v: Map<u16, Bits>, g: Set<u16>) -> Map<u16, Bits> { c.union_prefer_right(v.restrict(g)) }

impl Archetype {
    /// The rows' components that belong to the group.
    pub open spec fn view(&self, g: Set<u16>) -> Seq<Map<u16, Bits>> { Seq::new(self.n() as nat, |i: int| self.rows()[i].comps.restrict(g)) }
//@fn archetype/data_access.rs | impl Archetype | get_fuzzy_components_unchecked -> r as Archetype::get_fuzzy_components_unchecked
//@call `G::pointers_as_ref_tuple` => `pointers_as_ref_tuple::<G>(&self.mem, `
        requires self.ok(), index < self.n(), G::DESCRIPTOR.valid(), G::DESCRIPTOR.set().subset_of(self.set()), self.cells()[index as int].dom() =~= self.set()
        ensures r.comps() == self.rows()[index as int].comps.restrict(G::DESCRIPTOR.set())
//@start
        proof {
            let (d, n) = (G::DESCRIPTOR.archetype, 1int);
            G::canonical();
            assert forall|p: Seq<Ptr<u8>>| p.len() == 14 && #[trigger] into_store(self.store(), d, p, index as int) implies into_store(self.store(), d, p, index as int) && pointing(self.mem@, d, p, n) && apart(d, p, n)
                && gathered(self.mem@, d, p, 0, 1) == self.rows()[index as int].comps.restrict(d.set()) by {
                lemma_read_rows(*self, d, p, index as int, n);
                assert(gathered(self.mem@, d, p, 0, 1) == self.rows()[index + 0].comps.restrict(d.set()));
            }
        }
//@end
//@fn archetype/data_access.rs | impl Archetype | get_fuzzy_components_unchecked_mut -> r as Archetype::get_fuzzy_components_unchecked_mut
//@call `G::pointers_as_mut_ref_tuple` => `pointers_as_mut_ref_tuple::<G>(&mut self.mem, `
        requires old(self).ok(), index < old(self).n(), G::DESCRIPTOR.valid(), G::DESCRIPTOR.set().subset_of(old(self).set()),
            old(self).cells()[index as int].dom() =~= old(self).set()
        ensures r.comps() == old(self).rows()[index as int].comps.restrict(G::DESCRIPTOR.set()),
            final(self).ok(), final(self).like(old(self)), final(self).entity_count == old(self).entity_count, final(self).handles() == old(self).handles(),
            final(self).cells() == old(self).cells().update(index as int,
                overwritten(old(self).rows()[index as int].comps, final(r).comps(), G::DESCRIPTOR.set())),
//@start
        proof {
            let (d, n) = (G::DESCRIPTOR.archetype, 1int);
            G::canonical();
            assert forall|p: Seq<Ptr<u8>>| p.len() == 14 && #[trigger] into_store(self.store(), d, p, index as int) implies into_store(self.store(), d, p, index as int) && pointing(self.mem@, d, p, n) && apart(d, p, n)
                && gathered(self.mem@, d, p, 0, 1) == self.rows()[index as int].comps.restrict(d.set()) by {
                lemma_read_rows(*self, d, p, index as int, n);
                assert(gathered(self.mem@, d, p, 0, 1) == self.rows()[index + 0].comps.restrict(d.set()));
            }
            assert forall|p: Seq<Ptr<u8>>, h: Heap, rows: Seq<Map<u16, Bits>>| p.len() == 14 && rows.len() == n && into_store(self.store(), d, p, index as int) && #[trigger] overwrites(self.mem@, h, d, p, rows) implies ({
                let t = Store { heap: h, ..self.store() };
                &&& t.ok() && t.handles() == self.handles() && t.drops() == self.drops() && t.cells().len() == self.capacity
                &&& forall|i: int| 0 <= i < self.capacity ==> (#[trigger] t.cells()[i]).dom().subset_of(self.set())
                &&& forall|i: int| 0 <= i < self.capacity ==> #[trigger] t.cells()[i] == if index as int <= i < index as int + rows.len() { overwritten(self.rows()[i].comps, rows[i - index as int], d.set()) } else { self.cells()[i] }
            }) by { lemma_wrote_rows(*self, d, p, index as int, h, rows); }
        }
//@end
//@fn archetype/data_access.rs | impl Archetype | get_slices_unchecked_exact -> r as Archetype::get_slices_unchecked_exact
//@call `G::slice_unchecked` => `slice_unchecked::<G>(&self.mem, `
        requires self.ok(), self.filled(), G::DESCRIPTOR.valid(), G::DESCRIPTOR.set() =~= self.set(), G::DESCRIPTOR.archetype.archetype_id == self.descriptor.archetype_id
        ensures r.rows() == self.view(G::DESCRIPTOR.set())
//@start
        proof {
            let (d, n) = (G::DESCRIPTOR.archetype, self.n());
            G::canonical(); lemma_canonical(d.ids(), self.descriptor.ids()); lemma_same_types(self.store(), d); lemma_cells(self.store()); lemma_own_pointers(self.store());
            assert forall|p: Seq<Ptr<u8>>| p.len() == 14 && #[trigger] into_store(self.store(), self.descriptor, p, 0int) implies into_store(self.store(), d, p, 0int) && pointing(self.mem@, d, p, n) && apart(d, p, n)
                && gathered_all(self.mem@, d, p, n) == self.view(d.set()) by {
                lemma_read_rows(*self, d, p, 0int, n);
                assert(gathered_all(self.mem@, d, p, n) =~= self.view(d.set()));
            }
        }
//@end
//@fn archetype/data_access.rs | impl Archetype | get_slices_unchecked_exact_mut -> r as Archetype::get_slices_unchecked_exact_mut
//@call `G::slice_unchecked_mut` => `slice_unchecked_mut::<G>(&mut self.mem, `
        requires old(self).ok(), old(self).filled(), G::DESCRIPTOR.valid(), G::DESCRIPTOR.set() =~= old(self).set(), G::DESCRIPTOR.archetype.archetype_id == old(self).descriptor.archetype_id
        ensures r.rows() == old(self).view(G::DESCRIPTOR.set()),
            final(self).ok(), final(self).like(old(self)), final(self).entity_count == old(self).entity_count, final(self).handles() == old(self).handles(),
            final(self).rows() =~= Seq::new(old(self).rows().len(), |i: int| Row { handle: old(self).rows()[i].handle,
                comps: overwritten(old(self).rows()[i].comps, final(r).rows()[i], G::DESCRIPTOR.set()) }),
//@start
        proof {
            let (d, n) = (G::DESCRIPTOR.archetype, self.n());
            G::canonical(); lemma_canonical(d.ids(), self.descriptor.ids()); lemma_same_types(self.store(), d); lemma_cells(self.store()); lemma_own_pointers(self.store());
            assert forall|p: Seq<Ptr<u8>>| p.len() == 14 && #[trigger] into_store(self.store(), self.descriptor, p, 0int) implies into_store(self.store(), d, p, 0int) && pointing(self.mem@, d, p, n) && apart(d, p, n)
                && gathered_all(self.mem@, d, p, n) == self.view(d.set()) by {
                lemma_read_rows(*self, d, p, 0int, n);
                assert(gathered_all(self.mem@, d, p, n) =~= self.view(d.set()));
            }
            assert forall|p: Seq<Ptr<u8>>, h: Heap, rows: Seq<Map<u16, Bits>>| p.len() == 14 && rows.len() == n && into_store(self.store(), d, p, 0int) && #[trigger] overwrites(self.mem@, h, d, p, rows) implies ({
                let t = Store { heap: h, ..self.store() };
                &&& t.ok() && t.handles() == self.handles() && t.drops() == self.drops() && t.cells().len() == self.capacity
                &&& forall|i: int| 0 <= i < self.capacity ==> (#[trigger] t.cells()[i]).dom().subset_of(self.set())
                &&& forall|i: int| 0 <= i < self.capacity ==> #[trigger] t.cells()[i] == if 0int <= i < 0int + rows.len() { overwritten(self.rows()[i].comps, rows[i - 0int], d.set()) } else { self.cells()[i] }
            }) by { lemma_wrote_rows(*self, d, p, 0int, h, rows); }
        }
//@end
}

impl Registry {
    /// The components of entity e were overwritten, its types kept.
    pub open spec fn wrote(&self, o: &Registry, e: Entity, comps: Map<u16, Bits>) -> bool {
        let a = o.slot(e).arch();
        &&& o.has(e) && comps.dom() =~= o.comps(e).dom()
        &&& self.entities.same(&o.entities)
        &&& self.archetypes.updates(&o.archetypes)
        &&& self.archs() =~= o.archs().update(a, self.archs()[a])
        &&& self.archs()[a].rows() =~= o.home(e).rows().update(o.slot(e).row(), Row { handle: e, comps })
        &&& self.archs()[a].drops() == o.home(e).drops()
    }
//@fn registry/registry.rs | impl Registry | has_component -> r as Registry::has_component
        requires self.wf()
        ensures r == (self.has(entity) && self.comps(entity).contains_key(C::ID.0))
//@start
        proof { if self.has(entity) { lemma_distinct(*self, entity); } }
//@end
//@fn registry/registry.rs | impl Registry | has_components -> r as Registry::has_components
        requires self.wf()
        ensures r == (G::DESCRIPTOR.valid() && self.has(entity) && G::DESCRIPTOR.set().subset_of(self.comps(entity).dom()))
//@start
        proof { G::canonical(); if self.has(entity) { lemma_distinct(*self, entity); } }
//@end
//@fn registry/registry.rs | impl Registry | get_component -> r as Registry::get_component
        requires self.wf()
        ensures
            r is Some <==> self.has(entity) && self.comps(entity).contains_key(C::ID.0),
            r matches Some(c) ==> c.bits() == self.comps(entity)[C::ID.0],
//@start
        proof { if self.has(entity) { lemma_distinct(*self, entity); } }
//@end
//@fn registry/registry.rs | impl Registry | get_components -> r as Registry::get_components
        requires self.wf()
        ensures
            r is Some <==> G::DESCRIPTOR.valid() && self.has(entity) && G::DESCRIPTOR.set().subset_of(self.comps(entity).dom()),
            r matches Some(c) ==> c.comps() == self.comps(entity).restrict(G::DESCRIPTOR.set()),
//@start
        proof { G::canonical(); if self.has(entity) { lemma_distinct(*self, entity); } }
//@end
//@fn registry/registry.rs | impl Registry | get_component_mut -> r as Registry::get_component_mut
        requires old(self).wf()
        ensures
            r is Some <==> old(self).has(entity) && old(self).comps(entity).contains_key(C::ID.0),
            r is None ==> final(self).unchanged(old(self)) && (final(self).unchanged(old(self)) ==> final(self).wf()),
            r matches Some(c) ==> c.bits() == old(self).comps(entity)[C::ID.0],
            r matches Some(c) ==> final(self).wrote(old(self), entity, old(self).comps(entity).insert(C::ID.0, final(c).bits())),
            r matches Some(c) ==> (final(self).wrote(old(self), entity, old(self).comps(entity).insert(C::ID.0, final(c).bits())) ==> final(self).wf()
                && final(self).changes_entity(old(self), entity, old(self).comps(entity).insert(C::ID.0, final(c).bits())) && final(self).no_drops(old(self))),
//@start
        broadcast use {lemma_wrote, lemma_unchanged};
        proof { if self.has(entity) { lemma_distinct(*self, entity); } }
//@end
//@fn registry/registry.rs | impl Registry | get_components_mut -> r as Registry::get_components_mut
        requires old(self).wf()
        ensures
            r is Some <==> G::DESCRIPTOR.valid() && old(self).has(entity) && G::DESCRIPTOR.set().subset_of(old(self).comps(entity).dom()),
            r is None ==> final(self).unchanged(old(self)) && (final(self).unchanged(old(self)) ==> final(self).wf()),
            r matches Some(c) ==> c.comps() == old(self).comps(entity).restrict(G::DESCRIPTOR.set()),
            r matches Some(c) ==> final(self).wrote(old(self), entity, overwritten(old(self).comps(entity), final(c).comps(), G::DESCRIPTOR.set())),
            r matches Some(c) ==> (final(self).wrote(old(self), entity, overwritten(old(self).comps(entity), final(c).comps(), G::DESCRIPTOR.set())) ==> final(self).wf()
                && final(self).changes_entity(old(self), entity, overwritten(old(self).comps(entity), final(c).comps(), G::DESCRIPTOR.set())) && final(self).no_drops(old(self))),
//@start
        broadcast use {lemma_wrote, lemma_unchanged};
        proof { G::canonical(); if self.has(entity) { lemma_distinct(*self, entity); } }
//@end
}
//@lemma
pub broadcast proof fn lemma_wrote(r: Registry, o: Registry, e: Entity, comps: Map<u16, Bits>)
    requires o.wf(), #[trigger] r.wrote(&o, e, comps)
    ensures r.wf(), r.changes_entity(&o, e, comps), r.no_drops(&o)
{
    hide(EntityRegistry::inv);
    lemma_distinct(o, e);
    lemma_updates(r.archetypes, o.archetypes);
    let a = o.slot(e).arch();
    assert(r.entities.inv()) by { reveal(EntityRegistry::inv); assert(r.slots() == o.slots()); }
    assert(r.archs()[a].rows().len() == o.archs()[a].rows().len());
    assert forall|b: int, k: int| 0 <= b < r.archs().len() && 0 <= k < r.archs()[b].n() implies {
            let row = #[trigger] r.archs()[b].rows()[k];
            r.has(row.handle) && r.slot(row.handle).arch() == b && r.slot(row.handle).row() == k && row.comps.dom() =~= r.archs()[b].set()
        } by {
        let row = o.archs()[b].rows()[k];
        assert(o.has(row.handle));
    }
    assert forall|i: int| 0 <= i < r.slots().len() && (#[trigger] r.slots()[i]).live() implies {
            let s = r.slots()[i];
            &&& 0 <= s.arch() < r.archs().len() && 0 <= s.row() < r.archs()[s.arch()].n()
            &&& r.archs()[s.arch()].rows()[s.row()].handle.idx() == i && r.archs()[s.arch()].rows()[s.row()].handle.ver() == s.ver()
        } by {
        let s = o.slots()[i];
        assert(s.live());
    }
    assert forall|x: Entity| x != e && o.has(x) implies #[trigger] r.comps(x) == o.comps(x) by {
        lemma_distinct(o, x);
        if o.slot(x).arch() == a && o.slot(x).row() == o.slot(e).row() { assert(o.archs()[a].rows()[o.slot(e).row()].handle == x); }
    }
}

/// G::empty_slice and G::empty_slice_mut, and the empty slice of handles.
#[verifier::external_body]
pub fn empty_slice<'a, G: ComponentGroup>() -> (r: SliceRefTuple<'a, G>)
    ensures r.rows().len() == 0
{ unimplemented!() }
#[verifier::external_body]
pub fn empty_slice_mut<'a, G: ComponentGroup>() -> (r: &'a mut SliceMutRefTuple<G>)
    ensures r.rows().len() == 0
{ unimplemented!() }
#[verifier::external_body]
pub fn no_handles<'a>() -> (r: &'a [Entity])
    ensures r@.len() == 0
{ unimplemented!() }
/// Archetype::entities through a raw pointer to the archetype.
#[verifier::external_body]
pub fn handles_of<'a>(x: &mut Archetype) -> (r: &'a [Entity])
    requires old(x).ok()
    ensures r@ =~= old(x).handles().take(old(x).n()), *final(x) == *old(x)
{ unimplemented!() }

/// The components of the rows, and their handles.
pub open spec fn comps_of(rows: Seq<Row>) -> Seq<Map<u16, Bits>> { Seq::new(rows.len(), |i: int| rows[i].comps) }
pub open spec fn handles_in(rows: Seq<Row>) -> Seq<Entity> { Seq::new(rows.len(), |i: int| rows[i].handle) }

impl Registry {
    /// The rows of the entities having exactly the group's types.
    pub open spec fn exact(&self, d: ArchetypeDescriptor) -> Seq<Row> { if d.valid() { Self::base(self, d.ids()) } else { Seq::empty() } }
    /// The components of those rows were overwritten.
    pub open spec fn rewrote(&self, o: &Registry, d: ArchetypeDescriptor, v: Seq<Map<u16, Bits>>) -> bool {
        let a = o.archetypes.arch_of(d.ids());
        if d.valid() && !o.archetypes.lacks(d.ids()) {
            &&& self.entities.same(&o.entities)
            &&& self.archetypes.updates(&o.archetypes)
            &&& self.archs() =~= o.archs().update(a, self.archs()[a])
            &&& self.archs()[a].rows() =~= Seq::new(o.archs()[a].rows().len(), |i: int| Row { handle: o.archs()[a].rows()[i].handle,
                    comps: overwritten(o.archs()[a].rows()[i].comps, v[i], d.set()) })
            &&& self.archs()[a].drops() == o.archs()[a].drops()
        } else { self.unchanged(o) }
    }
//@fn registry/registry.rs | impl Registry | iter_components_exact -> r as Registry::iter_components_exact
        requires self.wf()
        ensures r.rows() =~= comps_of(self.exact(G::DESCRIPTOR.archetype))
//@start
        proof { G::canonical(); if G::DESCRIPTOR.valid() { lemma_found(*self, G::DESCRIPTOR.archetype); } }
//@end
//@fn registry/registry.rs | impl Registry | iter_entity_components_exact -> r as Registry::iter_entity_components_exact
//@sub `&[]` => `no_handles()`
        requires self.wf()
        ensures r.1.rows() =~= comps_of(self.exact(G::DESCRIPTOR.archetype)), r.0@ =~= handles_in(self.exact(G::DESCRIPTOR.archetype))
//@start
        proof { G::canonical(); if G::DESCRIPTOR.valid() { lemma_found(*self, G::DESCRIPTOR.archetype); } }
//@end
//@fn registry/registry.rs | impl Registry | iter_components_exact_mut -> r as Registry::iter_components_exact_mut
        requires old(self).wf()
        ensures r.rows() =~= comps_of(old(self).exact(G::DESCRIPTOR.archetype)),
            final(self).rewrote(old(self), G::DESCRIPTOR.archetype, final(r).rows()),
            final(self).rewrote(old(self), G::DESCRIPTOR.archetype, final(r).rows()) ==> final(self).wf(),
//@start
        broadcast use lemma_rewrote;
        proof { G::canonical(); if G::DESCRIPTOR.valid() { lemma_found(*self, G::DESCRIPTOR.archetype); } }
//@end
//@fn registry/registry.rs | impl Registry | iter_entity_components_exact_mut -> r as Registry::iter_entity_components_exact_mut
//@sub `&[]` => `no_handles()`
//@sub `(*(v as *mut Archetype)).entities()` => `handles_of(v)`
        requires old(self).wf()
        ensures r.1.rows() =~= comps_of(old(self).exact(G::DESCRIPTOR.archetype)), r.0@ =~= handles_in(old(self).exact(G::DESCRIPTOR.archetype)),
            final(self).rewrote(old(self), G::DESCRIPTOR.archetype, final(r.1).rows()),
            final(self).rewrote(old(self), G::DESCRIPTOR.archetype, final(r.1).rows()) ==> final(self).wf(),
//@start
        broadcast use lemma_rewrote;
        proof { G::canonical(); if G::DESCRIPTOR.valid() { lemma_found(*self, G::DESCRIPTOR.archetype); } }
//@end
}
//@lemma
pub proof fn lemma_found(o: Registry, d: ArchetypeDescriptor)
    requires o.wf(), d.ok()
    ensures !o.archetypes.lacks(d.ids()) ==> {
        let a = o.archetypes.arch_of(d.ids());
        &&& o.archetypes.is_arch(d.ids(), a) && o.archs()[a].ok() && o.archs()[a].filled() && o.archs()[a].set() == d.set() && o.archs()[a].descriptor.archetype_id == d.archetype_id
        &&& o.archs()[a].view(d.set()) =~= comps_of(o.archs()[a].rows())
        &&& handles_in(o.archs()[a].rows()) =~= o.archs()[a].handles().take(o.archs()[a].n())
    }
{
    lemma_filled(o);
    if !o.archetypes.lacks(d.ids()) {
        let a = o.archetypes.arch_of(d.ids());
        assert(o.archetypes.is_arch(d.ids(), a));
        assert forall|i: int| 0 <= i < o.archs()[a].n() implies #[trigger] o.archs()[a].rows()[i].comps.restrict(d.set()) == o.archs()[a].rows()[i].comps by {
            assert(o.archs()[a].rows()[i].comps.dom() =~= d.set());
            assert(o.archs()[a].rows()[i].comps.restrict(d.set()) =~= o.archs()[a].rows()[i].comps);
        }
    }
}
/// Exact iteration: each entity with exactly these types, once, with its components.
//@lemma
pub proof fn lemma_exact_rows(o: Registry, d: ArchetypeDescriptor)
    requires o.wf(), d.valid() ==> d.ok()
    ensures
        forall|i: int| 0 <= i < o.exact(d).len() ==> {
            let row = #[trigger] o.exact(d)[i];
            o.has(row.handle) && o.comps(row.handle) == row.comps && row.comps.dom() =~= d.set() && o.slot(row.handle).row() == i
        },
        forall|e: Entity| #[trigger] o.has(e) && d.valid() && o.comps(e).dom() =~= d.set() ==> o.slot(e).row() < o.exact(d).len() && o.exact(d)[o.slot(e).row()].handle == e,
{
    if d.valid() {
        lemma_found(o, d);
        assert forall|e: Entity| #[trigger] o.has(e) && o.comps(e).dom() =~= d.set() implies o.slot(e).row() < o.exact(d).len() && o.exact(d)[o.slot(e).row()].handle == e by {
            lemma_distinct(o, e);
            let b = o.slot(e).arch();
            assert(o.archs()[b].ok());
            lemma_canonical(o.archs()[b].descriptor.ids(), d.ids());
            assert(o.archetypes.is_arch(d.ids(), b));
            let a = o.archetypes.arch_of(d.ids());
            assert(o.archetypes.is_arch(d.ids(), a));
            assert(a == b);
        }
    }
}
//@lemma
pub broadcast proof fn lemma_rewrote(r: Registry, o: Registry, d: ArchetypeDescriptor, v: Seq<Map<u16, Bits>>)
    requires o.wf(), d.valid() ==> d.ok(), #[trigger] r.rewrote(&o, d, v)
    ensures r.wf(), forall|x: Entity| #[trigger] r.has(x) == o.has(x), r.no_drops(&o),
        forall|x: Entity| o.has(x) && !(d.valid() && o.comps(x).dom() =~= d.set()) ==> #[trigger] r.comps(x) == o.comps(x),
        forall|x: Entity| o.has(x) && d.valid() && o.comps(x).dom() =~= d.set() ==> #[trigger] r.comps(x) == overwritten(o.comps(x), v[o.slot(x).row()], d.set()),
{
    hide(EntityRegistry::inv);
    if d.valid() && !o.archetypes.lacks(d.ids()) {
        lemma_found(o, d);
        lemma_updates(r.archetypes, o.archetypes);
        let a = o.archetypes.arch_of(d.ids());
        assert(r.entities.inv()) by { reveal(EntityRegistry::inv); assert(r.slots() == o.slots()); }
        assert(r.archs()[a].rows().len() == o.archs()[a].rows().len());
        assert forall|b: int, k: int| 0 <= b < r.archs().len() && 0 <= k < r.archs()[b].n() implies {
                let row = #[trigger] r.archs()[b].rows()[k];
                r.has(row.handle) && r.slot(row.handle).arch() == b && r.slot(row.handle).row() == k && row.comps.dom() =~= r.archs()[b].set()
            } by {
            let row = o.archs()[b].rows()[k];
            assert(o.has(row.handle));
        }
        assert forall|i: int| 0 <= i < r.slots().len() && (#[trigger] r.slots()[i]).live() implies {
                let s = r.slots()[i];
                &&& 0 <= s.arch() < r.archs().len() && 0 <= s.row() < r.archs()[s.arch()].n()
                &&& r.archs()[s.arch()].rows()[s.row()].handle.idx() == i && r.archs()[s.arch()].rows()[s.row()].handle.ver() == s.ver()
            } by {
            let s = o.slots()[i];
            assert(s.live());
        }
        assert forall|x: Entity| o.has(x) implies #[trigger] r.comps(x) == if o.comps(x).dom() =~= d.set() { overwritten(o.comps(x), v[o.slot(x).row()], d.set()) } else { o.comps(x) } by {
            lemma_distinct(o, x);
            lemma_exact_rows(o, d);
            if o.slot(x).arch() != a && o.comps(x).dom() =~= d.set() {
                assert(o.archs()[a].rows()[o.slot(x).row()].handle == x);
            }
        }
    } else {
        lemma_unchanged(r, o);
        lemma_exact_rows(o, d);
    }
}

// ---------------------------------------------------------------------------------------------------------------------
// Iteration over entities.
//@struct entity_registry/iterator.rs EntityIter

/// The handles of the live slots from the i-th on.
pub open spec fn live_from(s: Seq<EntityEntry>, i: int) -> Seq<Entity>
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { Seq::empty() } else if s[i].live() { seq![handle_of(s, i)] + live_from(s, i + 1) } else { live_from(s, i + 1) }
}
pub open spec fn handle_of(s: Seq<EntityEntry>, i: int) -> Entity { Entity { handle: (i * 256 + s[i].ver()) as u32 } }

impl<'a> EntityIter<'a> {
    /// What is still to come.
    pub open spec fn todo(&self) -> Seq<Entity> { live_from(self.entities@, self.current as int) }
//@fn entity_registry/iterator.rs | impl<'a> EntityIter<'a> | new -> r as EntityIter::new
        ensures r.todo() == live_from(entities@, 0), r.entities@ == entities@
//@end
//@fn entity_registry/iterator.rs | impl<'a> Iterator for EntityIter<'a> | next -> r as EntityIter::next
//@sub `Self::Item` => `Entity`
        requires old(self).entities@.len() <= MAXE()
        ensures final(self).entities == old(self).entities,
            r matches Some(e) ==> old(self).todo() =~= seq![e] + final(self).todo(),
            r is None ==> old(self).todo().len() == 0 && final(self).todo().len() == 0,
//@loop 1
            invariant self.entities == old(self).entities, self.entities@.len() <= MAXE(), self.todo() == old(self).todo(),
            decreases self.entities@.len() - self.current
//@body 1
            proof { lemma_handle(self.entities@, self.current as int); }
//@end
}
//@lemma
pub proof fn lemma_handle(s: Seq<EntityEntry>, i: int)
    requires 0 <= i < s.len() <= MAXE()
    ensures handle_of(s, i).idx() == i, handle_of(s, i).ver() == s[i].ver(), forall|e: Entity| #[trigger] e.idx() == i && e.ver() == s[i].ver() ==> e == handle_of(s, i)
{
    s[i].range();
    assert forall|e: Entity| #[trigger] e.idx() == i && e.ver() == s[i].ver() implies e == handle_of(s, i) by { assert(e.handle == handle_of(s, i).handle); }
}
/// Each live entity once, and nothing else.
//@lemma
pub proof fn lemma_live_from(s: Seq<EntityEntry>, i: int)
    requires 0 <= i <= s.len() <= MAXE()
    ensures
        forall|e: Entity| #[trigger] live_from(s, i).contains(e) <==> i <= e.idx() < s.len() && s[e.idx()].live() && s[e.idx()].ver() == e.ver(),
        live_from(s, i).no_duplicates(),
    decreases s.len() - i
{
    if i < s.len() {
        lemma_live_from(s, i + 1);
        lemma_handle(s, i);
        let t = live_from(s, i + 1);
        if s[i].live() {
            let h = handle_of(s, i);
            let u = live_from(s, i);
            assert(u == seq![h] + t);
            assert forall|e: Entity| #[trigger] u.contains(e) <==> e == h || t.contains(e) by {
                if t.contains(e) { let k = t.index_of(e); assert(u[k + 1] == e); }
                if e == h { assert(u[0] == e); }
                if u.contains(e) { let k = u.index_of(e); if k > 0 { assert(t[k - 1] == e); } }
            }
            assert(!t.contains(h));
            assert forall|a: int, b: int| 0 <= a < b < u.len() implies u[a] != u[b] by {
                assert(u[b] == t[b - 1]);
                if a > 0 { assert(u[a] == t[a - 1]); } else { assert(t.contains(u[b])); }
            }
        }
    }
}
impl EntityRegistry {
//@fn entity_registry/mod.rs | impl EntityRegistry | iter -> r as EntityRegistry::iter
//@result EntityIter<'_>
        requires self.inv()
        ensures r.entities@ == self.slots(), r.todo() == live_from(self.slots(), 0)
//@end
}
impl Registry {
//@fn registry/registry.rs | impl Registry | iter_entities -> r as Registry::iter_entities
//@result EntityIter<'_>
        requires self.wf()
        ensures r.entities@ == self.slots(), forall|e: Entity| #[trigger] r.todo().contains(e) == self.has(e), r.todo().no_duplicates()
//@start
        proof { lemma_live_from(self.slots(), 0); }
//@end
}

// ---------------------------------------------------------------------------------------------------------------------
// Iteration over the archetypes having a group.

pub type Levels = [Vec<SortedArchetypeKey>; 14];

/// The numbers of the archetypes whose types contain g, from the i-th key of level l on, in the order of the keys.
pub open spec fn matches(maps: Seq<Vec<SortedArchetypeKey>>, archs: Seq<Archetype>, g: Set<u16>, l: int, i: int) -> Seq<int>
    decreases 14 - l, (if i < maps[l]@.len() { maps[l]@.len() - i } else { 0 })
{
    if l < 0 || l >= 14 || i < 0 { Seq::empty() }
    else if i >= maps[l]@.len() { matches(maps, archs, g, l + 1, 0) }
    else {
        let a = maps[l]@[i].archetype_index as int;
        if g.subset_of(archs[a].set()) { seq![a] + matches(maps, archs, g, l, i + 1) } else { matches(maps, archs, g, l, i + 1) }
    }
}
/// What the iteration relies on: keys refer to archetypes, and archetypes are well-formed.
pub open spec fn walkable(maps: Seq<Vec<SortedArchetypeKey>>, archs: Seq<Archetype>) -> bool {
    &&& maps.len() == 14
    &&& forall|l: int, k: int| 0 <= l < 14 && 0 <= k < maps[l]@.len() ==> (#[trigger] maps[l]@[k]).archetype_index < archs.len()
    &&& forall|a: int| 0 <= a < archs.len() ==> (#[trigger] archs[a]).ok() && archs[a].filled()
}
impl ArchetypeRegistry {
    /// Every row has a component of each type.
    pub open spec fn filled(&self) -> bool { forall|a: int| 0 <= a < self.archs().len() ==> (#[trigger] self.archs()[a]).filled() }
}
//@lemma
pub proof fn lemma_filled(o: Registry)
    requires o.wf()
    ensures o.archetypes.filled()
{
    assert forall|a: int| 0 <= a < o.archs().len() implies (#[trigger] o.archs()[a]).filled() by {
        assert forall|i: int| 0 <= i < o.archs()[a].n() implies (#[trigger] o.archs()[a].cells()[i]).dom() =~= o.archs()[a].set() by { assert(o.archs()[a].rows()[i].comps == o.archs()[a].cells()[i]); }
    }
}
/// All archetypes having the group.
pub open spec fn all_matches(o: &ArchetypeRegistry, d: ArchetypeDescriptor) -> Seq<int> {
    if d.valid() { matches(o.sorted_mappings@, o.archs(), d.set(), d.len - 1, 0) } else { Seq::empty() }
}
/// The archetypes `skipped` were all rejected by the filter, archetype x accepted.
pub open spec fn rejected<F: Fn(&ArchetypeDescriptor) -> bool>(f: F, archs: Seq<Archetype>, skipped: Seq<int>) -> bool {
    forall|k: int| 0 <= k < skipped.len() ==> call_ensures(f, (&archs[#[trigger] skipped[k]].descriptor,), false)
}
pub open spec fn accepted<F: Fn(&ArchetypeDescriptor) -> bool>(f: F, x: &Archetype) -> bool { call_ensures(f, (&x.descriptor,), true) }
pub open spec fn total<F: Fn(&ArchetypeDescriptor) -> bool>(f: F) -> bool { forall|d: &ArchetypeDescriptor| #[trigger] call_requires(f, (d,)) }

/// `&mut *s.as_mut_ptr().offset(i)`. That no archetype is handed out twice is lemma_matches.
#[verifier::external_body]
pub fn at_mut<'a>(s: &mut [Archetype], i: usize) -> (r: &'a mut Archetype)
    requires i < old(s)@.len()
    ensures *r == old(s)@[i as int], final(s)@ == old(s)@
{ unimplemented!() }

/// Each archetype having the group, once, and no other.
//@lemma
pub proof fn lemma_matches(o: ArchetypeRegistry, d: ArchetypeDescriptor)
    requires o.inv(), d.valid() ==> d.ok()
    ensures
        forall|a: int| #[trigger] all_matches(&o, d).contains(a) <==> d.valid() && 0 <= a < o.archs().len() && d.set().subset_of(o.archs()[a].set()),
        all_matches(&o, d).no_duplicates(),
        o.filled() ==> walkable(o.sorted_mappings@, o.archs()),
{
    assert forall|l: int, k: int| 0 <= l < 14 && 0 <= k < o.sorted_mappings@[l]@.len() implies (#[trigger] o.sorted_mappings@[l]@[k]).archetype_index < o.archs().len() by {
        assert(o.keys(l)[k].archetype_index < o.archs().len());
    }
    if d.valid() {
        lemma_matches_from(o, d.set(), d.len - 1, 0);
        assert forall|a: int| 0 <= a < o.archs().len() && d.set().subset_of(o.archs()[a].set()) implies #[trigger] all_matches(&o, d).contains(a) by {
            let x = o.archs()[a].descriptor;
            assert(o.archs()[a].ok());
            x.ids().unique_seq_to_set();
            d.ids().unique_seq_to_set();
            vstd::set_lib::lemma_len_subset(d.set(), x.set());
            assert(d.ids().len() == d.len && x.ids().len() == x.len);
            assert(has_key(o.keys(x.len - 1), a));
            let k = choose|k: int| 0 <= k < o.keys(x.len - 1).len() && (#[trigger] o.keys(x.len - 1)[k]).archetype_index == a;
            assert(from(o, d.len - 1, 0, x.len - 1, k));
        }
        assert forall|a: int| #[trigger] all_matches(&o, d).contains(a) implies 0 <= a < o.archs().len() && d.set().subset_of(o.archs()[a].set()) by {
            let (m, k) = choose|m: int, k: int| #[trigger] from(o, d.len - 1, 0, m, k) && o.keys(m)[k].archetype_index == a;
            assert(o.keys(m)[k].archetype_index < o.archs().len());
        }
    }
}
/// The k-th key of level m comes at or after the i-th of level l.
pub open spec fn from(o: ArchetypeRegistry, l: int, i: int, m: int, k: int) -> bool {
    0 <= m < 14 && 0 <= k < o.keys(m).len() && (m > l || m == l && k >= i)
}
//@lemma
pub proof fn lemma_matches_from(o: ArchetypeRegistry, g: Set<u16>, l: int, i: int)
    requires o.inv(), 0 <= l <= 14, 0 <= i
    ensures
        forall|m: int, k: int| #[trigger] from(o, l, i, m, k) && g.subset_of(o.key_arch(m, k).set())
            ==> matches(o.sorted_mappings@, o.archs(), g, l, i).contains(o.keys(m)[k].archetype_index as int),
        forall|a: int| #[trigger] matches(o.sorted_mappings@, o.archs(), g, l, i).contains(a)
            ==> g.subset_of(o.archs()[a].set()) && exists|m: int, k: int| #[trigger] from(o, l, i, m, k) && o.keys(m)[k].archetype_index == a,
        matches(o.sorted_mappings@, o.archs(), g, l, i).no_duplicates(),
    decreases 14 - l, (if i < o.keys(l).len() { o.keys(l).len() - i } else { 0 })
{
    hide(ArchetypeRegistry::distinct);
    hide(Archetype::ok);
    let maps = o.sorted_mappings@;
    let archs = o.archs();
    let s = matches(maps, archs, g, l, i);
    if l == 14 {
    } else if i >= o.keys(l).len() {
        lemma_matches_from(o, g, l + 1, 0);
        assert(s == matches(maps, archs, g, l + 1, 0));
        assert forall|m: int, k: int| from(o, l, i, m, k) == #[trigger] from(o, l + 1, 0, m, k) by {}
        assert forall|m: int, k: int| #[trigger] from(o, l, i, m, k) == from(o, l + 1, 0, m, k) by {}
    } else {
        lemma_matches_from(o, g, l, i + 1);
        let t = matches(maps, archs, g, l, i + 1);
        let a = o.keys(l)[i].archetype_index as int;
        assert(from(o, l, i, l, i));
        assert forall|m: int, k: int| #[trigger] from(o, l, i, m, k) implies from(o, l, i + 1, m, k) || m == l && k == i by {}
        assert forall|m: int, k: int| #[trigger] from(o, l, i + 1, m, k) implies from(o, l, i, m, k) && o.keys(m)[k].archetype_index != a by {
            if o.keys(m)[k].archetype_index == a {
                assert(o.key_arch(m, k).descriptor.len == m + 1);
                assert(o.key_arch(l, i).descriptor.len == l + 1);
                assert(m == l && i < k);
                lemma_key_distinct(o, l, i, k);
            }
        }
        if g.subset_of(archs[a].set()) {
            assert(s == seq![a] + t);
            assert(s[0] == a);
            assert forall|b: int| #[trigger] s.contains(b) implies b == a || t.contains(b) by { let j = s.index_of(b); if j > 0 { assert(t[j - 1] == b); } }
            assert forall|b: int| t.contains(b) implies #[trigger] s.contains(b) by { let j = t.index_of(b); assert(s[j + 1] == b); }
            assert(!t.contains(a));
            assert forall|x: int, y: int| 0 <= x < y < s.len() implies s[x] != s[y] by {
                assert(s[y] == t[y - 1]);
                if x > 0 { assert(s[x] == t[x - 1]); } else { assert(t.contains(s[y])); }
            }
        } else {
            assert(s == t);
        }
    }
}
//@lemma
pub proof fn lemma_key_distinct(o: ArchetypeRegistry, l: int, i: int, k: int)
    requires o.inv(), 0 <= l < 14, 0 <= i < k < o.keys(l).len()
    ensures o.keys(l)[i].archetype_index != o.keys(l)[k].archetype_index
{
    reveal(key_lt);
    let (p, q) = (o.keys(l)[i], o.keys(l)[k]);
    assert(key_lt(p.id.0, o.key_ids(l, i), q.id.0, o.key_ids(l, k)));
    if p.archetype_index == q.archetype_index { lemma_lex_irreflexive(o.key_ids(l, i)); }
}
impl Registry {
    /// In terms of entities: the blocks are listed once each; every entity having the group is in one of them, in the row its slot
    /// names; every row of those blocks belongs to such an entity.
    pub open spec fn visits(&self, blocks: Seq<int>, d: ArchetypeDescriptor) -> bool {
        &&& blocks.no_duplicates()
        &&& forall|e: Entity| #[trigger] self.has(e) && d.valid() && d.set().subset_of(self.comps(e).dom())
            ==> blocks.contains(self.slot(e).arch()) && self.home(e).rows()[self.slot(e).row()].handle == e && 0 <= self.slot(e).row() < self.home(e).n()
        &&& forall|a: int, k: int| blocks.contains(a) && 0 <= k < self.archs()[a].n() ==> {
            let row = #[trigger] self.archs()[a].rows()[k];
            self.has(row.handle) && self.slot(row.handle).arch() == a && self.slot(row.handle).row() == k && self.comps(row.handle) == row.comps && d.set().subset_of(row.comps.dom())
        }
    }
}
//@lemma
pub proof fn lemma_visits(o: Registry, d: ArchetypeDescriptor)
    requires o.wf(), d.valid() ==> d.ok()
    ensures o.visits(all_matches(&o.archetypes, d), d), o.archetypes.filled()
{
    lemma_filled(o);
    lemma_matches(o.archetypes, d);
    assert forall|e: Entity| #[trigger] o.has(e) && d.valid() && d.set().subset_of(o.comps(e).dom())
        implies all_matches(&o.archetypes, d).contains(o.slot(e).arch()) && o.home(e).rows()[o.slot(e).row()].handle == e && 0 <= o.slot(e).row() < o.home(e).n() by {
        lemma_distinct(o, e);
    }
}

impl Archetype {
//@fn archetype/data_access.rs | impl Archetype | get_fuzzy_slices_unchecked -> r as Archetype::get_fuzzy_slices_unchecked
//@call `G::slice_unchecked` => `slice_unchecked::<G>(&self.mem, `
        requires self.ok(), self.filled(), G::DESCRIPTOR.valid(), G::DESCRIPTOR.set().subset_of(self.set())
        ensures r.rows() == self.view(G::DESCRIPTOR.set())
//@start
        proof {
            let (d, n) = (G::DESCRIPTOR.archetype, self.n());
            G::canonical();
            assert forall|p: Seq<Ptr<u8>>| p.len() == 14 && #[trigger] into_store(self.store(), d, p, 0int) implies into_store(self.store(), d, p, 0int) && pointing(self.mem@, d, p, n) && apart(d, p, n)
                && gathered_all(self.mem@, d, p, n) == self.view(d.set()) by {
                lemma_read_rows(*self, d, p, 0int, n);
                assert(gathered_all(self.mem@, d, p, n) =~= self.view(d.set()));
            }
        }
//@end
//@fn archetype/data_access.rs | impl Archetype | get_fuzzy_slices_unchecked_mut -> r as Archetype::get_fuzzy_slices_unchecked_mut
//@call `G::slice_unchecked_mut` => `slice_unchecked_mut::<G>(&mut self.mem, `
        requires old(self).ok(), old(self).filled(), G::DESCRIPTOR.valid(), G::DESCRIPTOR.set().subset_of(old(self).set())
        ensures r.rows() == old(self).view(G::DESCRIPTOR.set()),
            final(self).ok(), final(self).like(old(self)), final(self).entity_count == old(self).entity_count, final(self).handles() == old(self).handles(),
            final(self).rows() =~= Seq::new(old(self).rows().len(), |i: int| Row { handle: old(self).rows()[i].handle,
                comps: overwritten(old(self).rows()[i].comps, final(r).rows()[i], G::DESCRIPTOR.set()) }),
//@start
        proof {
            let (d, n) = (G::DESCRIPTOR.archetype, self.n());
            G::canonical();
            assert forall|p: Seq<Ptr<u8>>| p.len() == 14 && #[trigger] into_store(self.store(), d, p, 0int) implies into_store(self.store(), d, p, 0int) && pointing(self.mem@, d, p, n) && apart(d, p, n)
                && gathered_all(self.mem@, d, p, n) == self.view(d.set()) by {
                lemma_read_rows(*self, d, p, 0int, n);
                assert(gathered_all(self.mem@, d, p, n) =~= self.view(d.set()));
            }
            assert forall|p: Seq<Ptr<u8>>, h: Heap, rows: Seq<Map<u16, Bits>>| p.len() == 14 && rows.len() == n && into_store(self.store(), d, p, 0int) && #[trigger] overwrites(self.mem@, h, d, p, rows) implies ({
                let t = Store { heap: h, ..self.store() };
                &&& t.ok() && t.handles() == self.handles() && t.drops() == self.drops() && t.cells().len() == self.capacity
                &&& forall|i: int| 0 <= i < self.capacity ==> (#[trigger] t.cells()[i]).dom().subset_of(self.set())
                &&& forall|i: int| 0 <= i < self.capacity ==> #[trigger] t.cells()[i] == if 0int <= i < 0int + rows.len() { overwritten(self.rows()[i].comps, rows[i - 0int], d.set()) } else { self.cells()[i] }
            }) by { lemma_wrote_rows(*self, d, p, 0int, h, rows); }
        }
//@end
//@fn archetype/data_access.rs | impl Archetype | get_entity_fuzzy_slices_unchecked -> r as Archetype::get_entity_fuzzy_slices_unchecked
//@call `G::slice_unchecked` => `slice_unchecked::<G>(&self.mem, `
        requires self.ok(), self.filled(), G::DESCRIPTOR.valid(), G::DESCRIPTOR.set().subset_of(self.set())
        ensures r.1.rows() == self.view(G::DESCRIPTOR.set()), r.0@ =~= handles_in(self.rows())
//@start
        proof {
            let (d, n) = (G::DESCRIPTOR.archetype, self.n());
            G::canonical();
            assert forall|p: Seq<Ptr<u8>>| p.len() == 14 && #[trigger] into_store(self.store(), d, p, 0int) implies into_store(self.store(), d, p, 0int) && pointing(self.mem@, d, p, n) && apart(d, p, n)
                && gathered_all(self.mem@, d, p, n) == self.view(d.set()) by {
                lemma_read_rows(*self, d, p, 0int, n);
                assert(gathered_all(self.mem@, d, p, n) =~= self.view(d.set()));
            }
        }
//@end
//@fn archetype/data_access.rs | impl Archetype | get_entity_fuzzy_slices_unchecked_mut -> r as Archetype::get_entity_fuzzy_slices_unchecked_mut
//@call `G::slice_unchecked_mut` => `slice_unchecked_mut::<G>(&mut self.mem, `
//@sub `self.entities()` => `handles_of(self)`
        requires old(self).ok(), old(self).filled(), G::DESCRIPTOR.valid(), G::DESCRIPTOR.set().subset_of(old(self).set())
        ensures r.1.rows() == old(self).view(G::DESCRIPTOR.set()), r.0@ =~= handles_in(old(self).rows()),
            final(self).ok(), final(self).like(old(self)), final(self).entity_count == old(self).entity_count, final(self).handles() == old(self).handles(),
            final(self).rows() =~= Seq::new(old(self).rows().len(), |i: int| Row { handle: old(self).rows()[i].handle,
                comps: overwritten(old(self).rows()[i].comps, final(r.1).rows()[i], G::DESCRIPTOR.set()) }),
//@start
        proof {
            let (d, n) = (G::DESCRIPTOR.archetype, self.n());
            G::canonical();
            assert forall|p: Seq<Ptr<u8>>| p.len() == 14 && #[trigger] into_store(self.store(), d, p, 0int) implies into_store(self.store(), d, p, 0int) && pointing(self.mem@, d, p, n) && apart(d, p, n)
                && gathered_all(self.mem@, d, p, n) == self.view(d.set()) by {
                lemma_read_rows(*self, d, p, 0int, n);
                assert(gathered_all(self.mem@, d, p, n) =~= self.view(d.set()));
            }
            assert forall|p: Seq<Ptr<u8>>, h: Heap, rows: Seq<Map<u16, Bits>>| p.len() == 14 && rows.len() == n && into_store(self.store(), d, p, 0int) && #[trigger] overwrites(self.mem@, h, d, p, rows) implies ({
                let t = Store { heap: h, ..self.store() };
                &&& t.ok() && t.handles() == self.handles() && t.drops() == self.drops() && t.cells().len() == self.capacity
                &&& forall|i: int| 0 <= i < self.capacity ==> (#[trigger] t.cells()[i]).dom().subset_of(self.set())
                &&& forall|i: int| 0 <= i < self.capacity ==> #[trigger] t.cells()[i] == if 0int <= i < 0int + rows.len() { overwritten(self.rows()[i].comps, rows[i - 0int], d.set()) } else { self.cells()[i] }
            }) by { lemma_wrote_rows(*self, d, p, 0int, h, rows); }
        }
//@end
}

//@struct archetype_registry/iterators/archetype_iter.rs ArchetypeIter
impl<'a, G: ComponentGroup> ArchetypeIter<'a, G> {
    /// What is still to come, by number.
    pub open spec fn todo(&self) -> Seq<int> {
        if G::DESCRIPTOR.valid() { matches(self.sorted_mappings@, self.archetypes@, G::DESCRIPTOR.set(), self.current_level as int, self.current_index_in_level as int) } else { Seq::empty() }
    }
    pub open spec fn ready(&self) -> bool { walkable(self.sorted_mappings@, self.archetypes@) }
    pub open spec fn same(&self, o: &Self) -> bool { self.sorted_mappings == o.sorted_mappings && self.archetypes@ == o.archetypes@ }
//@fn archetype_registry/iterators/archetype_iter.rs | impl<.*> ArchetypeIter<.*> | new -> r as ArchetypeIter::new
//@sub `Default::default()` => `core::marker::PhantomData`
        requires walkable(sorted_mappings@, archetypes@)
        ensures r.ready(), r.archetypes@ == archetypes@, r.sorted_mappings@ == sorted_mappings@,
            G::DESCRIPTOR.valid() ==> r.todo() == matches(sorted_mappings@, archetypes@, G::DESCRIPTOR.set(), G::DESCRIPTOR.archetype.len - 1, 0),
            !G::DESCRIPTOR.valid() ==> r.todo().len() == 0,
//@start
        proof { G::canonical(); }
//@end
//@fn archetype_registry/iterators/archetype_iter.rs | impl<.*> Iterator for ArchetypeIter<.*> | next -> r as ArchetypeIter::next
//@sub `Self::Item` => `&'a Archetype`
//@sub `&mut *self.archetypes.as_mut_ptr().offset(arch_index as isize)` => `at_mut(self.archetypes, arch_index as usize)`
        requires old(self).ready()
        ensures final(self).same(old(self)), final(self).ready(),
            r matches Some(x) ==> old(self).todo().len() > 0 && *x == old(self).archetypes@[old(self).todo()[0]] && final(self).todo() =~= old(self).todo().skip(1)
                && x.ok() && x.filled() && G::DESCRIPTOR.valid() && G::DESCRIPTOR.set().subset_of(x.set()),
            r is None ==> old(self).todo().len() == 0 && final(self).todo().len() == 0,
//@start
        proof { G::canonical(); }
//@loop 1
            invariant G::DESCRIPTOR.valid(), G::DESCRIPTOR.archetype.ok(), self.same(old(self)), self.ready(), self.todo() == old(self).todo(),
            decreases 14 - self.current_level
//@loop 2
                invariant G::DESCRIPTOR.valid(), G::DESCRIPTOR.archetype.ok(), self.same(old(self)), self.ready(), self.todo() == old(self).todo(),
                    self.current_level < 14, self.current_level == at, level@ == self.sorted_mappings@[at as int]@,
                decreases level@.len() - self.current_index_in_level
//@body 1
            let ghost at = self.current_level;
//@end
}

//@struct archetype_registry/iterators/archetype_iter_mut.rs ArchetypeIterMut
impl<'a, G: ComponentGroup> ArchetypeIterMut<'a, G> {
    /// What is still to come, by number.
    pub open spec fn todo(&self) -> Seq<int> {
        if G::DESCRIPTOR.valid() { matches(self.sorted_mappings@, self.archetypes@, G::DESCRIPTOR.set(), self.current_level as int, self.current_index_in_level as int) } else { Seq::empty() }
    }
    pub open spec fn ready(&self) -> bool { walkable(self.sorted_mappings@, self.archetypes@) }
    pub open spec fn same(&self, o: &Self) -> bool { self.sorted_mappings == o.sorted_mappings && self.archetypes@ == o.archetypes@ }
//@fn archetype_registry/iterators/archetype_iter_mut.rs | impl<.*> ArchetypeIterMut<.*> | new -> r as ArchetypeIterMut::new
//@sub `Default::default()` => `core::marker::PhantomData`
        requires walkable(sorted_mappings@, old(archetypes)@)
        ensures r.ready(), r.archetypes@ == old(archetypes)@, r.sorted_mappings@ == sorted_mappings@,
            G::DESCRIPTOR.valid() ==> r.todo() == matches(sorted_mappings@, old(archetypes)@, G::DESCRIPTOR.set(), G::DESCRIPTOR.archetype.len - 1, 0),
            !G::DESCRIPTOR.valid() ==> r.todo().len() == 0,
//@start
        proof { G::canonical(); }
//@end
//@fn archetype_registry/iterators/archetype_iter_mut.rs | impl<.*> Iterator for ArchetypeIterMut<.*> | next -> r as ArchetypeIterMut::next
//@sub `Self::Item` => `&'a mut Archetype`
//@sub `&mut *self.archetypes.as_mut_ptr().offset(arch_index as isize)` => `at_mut(self.archetypes, arch_index as usize)`
        requires old(self).ready()
        ensures final(self).same(old(self)), final(self).ready(),
            r matches Some(x) ==> old(self).todo().len() > 0 && *x == old(self).archetypes@[old(self).todo()[0]] && final(self).todo() =~= old(self).todo().skip(1)
                && x.ok() && x.filled() && G::DESCRIPTOR.valid() && G::DESCRIPTOR.set().subset_of(x.set()),
            r is None ==> old(self).todo().len() == 0 && final(self).todo().len() == 0,
//@start
        proof { G::canonical(); }
//@loop 1
            invariant G::DESCRIPTOR.valid(), G::DESCRIPTOR.archetype.ok(), self.same(old(self)), self.ready(), self.todo() == old(self).todo(),
            decreases 14 - self.current_level
//@loop 2
                invariant G::DESCRIPTOR.valid(), G::DESCRIPTOR.archetype.ok(), self.same(old(self)), self.ready(), self.todo() == old(self).todo(),
                    self.current_level < 14, self.current_level == at, level@ == self.sorted_mappings@[at as int]@,
                decreases level@.len() - self.current_index_in_level
//@body 1
            let ghost at = self.current_level;
//@end
}

//@struct archetype_registry/iterators/filter_archetype_iter.rs FilterArchetypeIter
impl<'a, G: ComponentGroup, F: Fn(&ArchetypeDescriptor) -> bool> FilterArchetypeIter<'a, G, F> {
    /// What is still to come, before filtering.
    pub open spec fn todo(&self) -> Seq<int> {
        if G::DESCRIPTOR.valid() { matches(self.sorted_mappings@, self.archetypes@, G::DESCRIPTOR.set(), self.current_level as int, self.current_index_in_level as int) } else { Seq::empty() }
    }
    pub open spec fn ready(&self) -> bool { walkable(self.sorted_mappings@, self.archetypes@) && total(self.filter_closure) }
    pub open spec fn same(&self, o: &Self) -> bool { self.sorted_mappings == o.sorted_mappings && self.archetypes@ == o.archetypes@ && self.filter_closure == o.filter_closure }
//@fn archetype_registry/iterators/filter_archetype_iter.rs | impl<.*> FilterArchetypeIter<.*> | new -> r as FilterArchetypeIter::new
//@sub `Default::default()` => `core::marker::PhantomData`
        requires walkable(sorted_mappings@, archetypes@), total(filter_closure)
        ensures r.ready(), r.archetypes@ == archetypes@, r.sorted_mappings@ == sorted_mappings@, r.filter_closure == filter_closure,
            G::DESCRIPTOR.valid() ==> r.todo() == matches(sorted_mappings@, archetypes@, G::DESCRIPTOR.set(), G::DESCRIPTOR.archetype.len - 1, 0),
            !G::DESCRIPTOR.valid() ==> r.todo().len() == 0,
//@start
        proof { G::canonical(); }
//@end
//@fn archetype_registry/iterators/filter_archetype_iter.rs | impl<.*> Iterator for FilterArchetypeIter<.*> | next -> r as FilterArchetypeIter::next
//@sub `Self::Item` => `&'a Archetype`
//@sub `&mut *self.archetypes.as_mut_ptr().offset(arch_index as isize)` => `at_mut(self.archetypes, arch_index as usize)`
        requires old(self).ready()
        ensures final(self).same(old(self)), final(self).ready(),
            r matches Some(x) ==> old(self).todo().len() > final(self).todo().len()
                && rejected(old(self).filter_closure, old(self).archetypes@, old(self).todo().take(old(self).todo().len() - final(self).todo().len() - 1))
                && *x == old(self).archetypes@[old(self).todo()[old(self).todo().len() - final(self).todo().len() - 1]] && accepted(old(self).filter_closure, x)
                && final(self).todo() =~= old(self).todo().skip(old(self).todo().len() - final(self).todo().len())
                && x.ok() && x.filled() && G::DESCRIPTOR.valid() && G::DESCRIPTOR.set().subset_of(x.set()),
            r is None ==> rejected(old(self).filter_closure, old(self).archetypes@, old(self).todo()) && final(self).todo().len() == 0,
//@start
        proof { G::canonical(); }
//@loop 1
            invariant G::DESCRIPTOR.valid(), G::DESCRIPTOR.archetype.ok(), self.same(old(self)), self.ready(), self.todo().len() <= old(self).todo().len(),
                self.todo() == old(self).todo().skip(old(self).todo().len() - self.todo().len()),
                rejected(self.filter_closure, self.archetypes@, old(self).todo().take(old(self).todo().len() - self.todo().len())),
            decreases 14 - self.current_level
//@loop 2
                invariant G::DESCRIPTOR.valid(), G::DESCRIPTOR.archetype.ok(), self.same(old(self)), self.ready(), self.todo().len() <= old(self).todo().len(),
                self.todo() == old(self).todo().skip(old(self).todo().len() - self.todo().len()),
                rejected(self.filter_closure, self.archetypes@, old(self).todo().take(old(self).todo().len() - self.todo().len())),
                    self.current_level < 14, self.current_level == at, level@ == self.sorted_mappings@[at as int]@,
                decreases level@.len() - self.current_index_in_level
//@body 1
            let ghost at = self.current_level;
//@body 2
                    proof {
                        let s = old(self).todo();
                        let t = self.todo();
                        let n = s.len() - t.len();
                        let a = level@[self.current_index_in_level as int].archetype_index as int;
                        let u = matches(self.sorted_mappings@, self.archetypes@, G::DESCRIPTOR.set(), at as int, self.current_index_in_level + 1);
                        assert(self.archetypes@[a].ok());
                        if G::DESCRIPTOR.set().subset_of(self.archetypes@[a].set()) {
                            assert(t == seq![a] + u);
                            assert(s[n] == t[0]);
                            assert(t.skip(1) =~= u);
                            assert(s.skip(n).skip(1) =~= s.skip(n + 1));
                            assert(s.take(n + 1) =~= s.take(n).push(a));
                        } else {
                            assert(t == u);
                        }
                    }
//@after 1
        proof { assert(old(self).todo().take(old(self).todo().len() as int) =~= old(self).todo()); }
//@end
}

//@struct archetype_registry/iterators/filter_archetype_iter_mut.rs FilterArchetypeIterMut
impl<'a, G: ComponentGroup, F: Fn(&ArchetypeDescriptor) -> bool> FilterArchetypeIterMut<'a, G, F> {
    /// What is still to come, before filtering.
    pub open spec fn todo(&self) -> Seq<int> {
        if G::DESCRIPTOR.valid() { matches(self.sorted_mappings@, self.archetypes@, G::DESCRIPTOR.set(), self.current_level as int, self.current_index_in_level as int) } else { Seq::empty() }
    }
    pub open spec fn ready(&self) -> bool { walkable(self.sorted_mappings@, self.archetypes@) && total(self.filter_closure) }
    pub open spec fn same(&self, o: &Self) -> bool { self.sorted_mappings == o.sorted_mappings && self.archetypes@ == o.archetypes@ && self.filter_closure == o.filter_closure }
//@fn archetype_registry/iterators/filter_archetype_iter_mut.rs | impl<.*> FilterArchetypeIterMut<.*> | new -> r as FilterArchetypeIterMut::new
//@sub `Default::default()` => `core::marker::PhantomData`
        requires walkable(sorted_mappings@, old(archetypes)@), total(filter_closure)
        ensures r.ready(), r.archetypes@ == old(archetypes)@, r.sorted_mappings@ == sorted_mappings@, r.filter_closure == filter_closure,
            G::DESCRIPTOR.valid() ==> r.todo() == matches(sorted_mappings@, old(archetypes)@, G::DESCRIPTOR.set(), G::DESCRIPTOR.archetype.len - 1, 0),
            !G::DESCRIPTOR.valid() ==> r.todo().len() == 0,
//@start
        proof { G::canonical(); }
//@end
//@fn archetype_registry/iterators/filter_archetype_iter_mut.rs | impl<.*> Iterator for FilterArchetypeIterMut<.*> | next -> r as FilterArchetypeIterMut::next
//@sub `Self::Item` => `&'a mut Archetype`
//@sub `&mut *self.archetypes.as_mut_ptr().offset(arch_index as isize)` => `at_mut(self.archetypes, arch_index as usize)`
        requires old(self).ready()
        ensures final(self).same(old(self)), final(self).ready(),
            r matches Some(x) ==> old(self).todo().len() > final(self).todo().len()
                && rejected(old(self).filter_closure, old(self).archetypes@, old(self).todo().take(old(self).todo().len() - final(self).todo().len() - 1))
                && *x == old(self).archetypes@[old(self).todo()[old(self).todo().len() - final(self).todo().len() - 1]] && accepted(old(self).filter_closure, x)
                && final(self).todo() =~= old(self).todo().skip(old(self).todo().len() - final(self).todo().len())
                && x.ok() && x.filled() && G::DESCRIPTOR.valid() && G::DESCRIPTOR.set().subset_of(x.set()),
            r is None ==> rejected(old(self).filter_closure, old(self).archetypes@, old(self).todo()) && final(self).todo().len() == 0,
//@start
        proof { G::canonical(); }
//@loop 1
            invariant G::DESCRIPTOR.valid(), G::DESCRIPTOR.archetype.ok(), self.same(old(self)), self.ready(), self.todo().len() <= old(self).todo().len(),
                self.todo() == old(self).todo().skip(old(self).todo().len() - self.todo().len()),
                rejected(self.filter_closure, self.archetypes@, old(self).todo().take(old(self).todo().len() - self.todo().len())),
            decreases 14 - self.current_level
//@loop 2
                invariant G::DESCRIPTOR.valid(), G::DESCRIPTOR.archetype.ok(), self.same(old(self)), self.ready(), self.todo().len() <= old(self).todo().len(),
                self.todo() == old(self).todo().skip(old(self).todo().len() - self.todo().len()),
                rejected(self.filter_closure, self.archetypes@, old(self).todo().take(old(self).todo().len() - self.todo().len())),
                    self.current_level < 14, self.current_level == at, level@ == self.sorted_mappings@[at as int]@,
                decreases level@.len() - self.current_index_in_level
//@body 1
            let ghost at = self.current_level;
//@body 2
                    proof {
                        let s = old(self).todo();
                        let t = self.todo();
                        let n = s.len() - t.len();
                        let a = level@[self.current_index_in_level as int].archetype_index as int;
                        let u = matches(self.sorted_mappings@, self.archetypes@, G::DESCRIPTOR.set(), at as int, self.current_index_in_level + 1);
                        assert(self.archetypes@[a].ok());
                        if G::DESCRIPTOR.set().subset_of(self.archetypes@[a].set()) {
                            assert(t == seq![a] + u);
                            assert(s[n] == t[0]);
                            assert(t.skip(1) =~= u);
                            assert(s.skip(n).skip(1) =~= s.skip(n + 1));
                            assert(s.take(n + 1) =~= s.take(n).push(a));
                        } else {
                            assert(t == u);
                        }
                    }
//@after 1
        proof { assert(old(self).todo().take(old(self).todo().len() as int) =~= old(self).todo()); }
//@end
}

//@struct archetype_registry/iterators/matching_iter.rs MatchingIter
impl<'a, G: ComponentGroup> MatchingIter<'a, G> {
    pub open spec fn todo(&self) -> Seq<int> { self.inner_iterator.todo() }
    pub open spec fn ready(&self) -> bool { self.inner_iterator.ready() }
    pub open spec fn archs(&self) -> Seq<Archetype> { self.inner_iterator.archetypes@ }

//@fn archetype_registry/iterators/matching_iter.rs | impl<.*> MatchingIter<.*> | new -> r as MatchingIter::new
        requires walkable(sorted_mappings@, archetypes@)
        ensures r.ready(), r.archs() == archetypes@,
            G::DESCRIPTOR.valid() ==> r.todo() == matches(sorted_mappings@, archetypes@, G::DESCRIPTOR.set(), G::DESCRIPTOR.archetype.len - 1, 0),
            !G::DESCRIPTOR.valid() ==> r.todo().len() == 0,
//@end
//@fn archetype_registry/iterators/matching_iter.rs | impl<.*> Iterator for MatchingIter<.*> | next -> r as MatchingIter::next
//@sub `Self::Item` => `SliceRefTuple<'a, G>`
        requires old(self).ready()
        ensures final(self).ready(), final(self).inner_iterator.same(&old(self).inner_iterator),
            r matches Some(v) ==> old(self).todo().len() > 0 && v.rows() == old(self).archs()[old(self).todo()[0]].view(G::DESCRIPTOR.set()) && final(self).todo() =~= old(self).todo().skip(1),
            r is None ==> old(self).todo().len() == 0 && final(self).todo().len() == 0,
//@end
}

//@struct archetype_registry/iterators/matching_iter.rs EntityMatchingIter
impl<'a, G: ComponentGroup> EntityMatchingIter<'a, G> {
    pub open spec fn todo(&self) -> Seq<int> { self.inner_iterator.todo() }
    pub open spec fn ready(&self) -> bool { self.inner_iterator.ready() }
    pub open spec fn archs(&self) -> Seq<Archetype> { self.inner_iterator.archetypes@ }

//@fn archetype_registry/iterators/matching_iter.rs | impl<.*> EntityMatchingIter<.*> | new -> r as EntityMatchingIter::new
        requires walkable(sorted_mappings@, archetypes@)
        ensures r.ready(), r.archs() == archetypes@,
            G::DESCRIPTOR.valid() ==> r.todo() == matches(sorted_mappings@, archetypes@, G::DESCRIPTOR.set(), G::DESCRIPTOR.archetype.len - 1, 0),
            !G::DESCRIPTOR.valid() ==> r.todo().len() == 0,
//@end
//@fn archetype_registry/iterators/matching_iter.rs | impl<.*> Iterator for EntityMatchingIter<.*> | next -> r as EntityMatchingIter::next
//@sub `Self::Item` => `(&'a [Entity], SliceRefTuple<'a, G>)`
        requires old(self).ready()
        ensures final(self).ready(), final(self).inner_iterator.same(&old(self).inner_iterator),
            r matches Some(v) ==> old(self).todo().len() > 0 && v.1.rows() == old(self).archs()[old(self).todo()[0]].view(G::DESCRIPTOR.set()) && v.0@ =~= handles_in(old(self).archs()[old(self).todo()[0]].rows()) && final(self).todo() =~= old(self).todo().skip(1),
            r is None ==> old(self).todo().len() == 0 && final(self).todo().len() == 0,
//@end
}

//@struct archetype_registry/iterators/matching_iter_mut.rs MatchingIterMut
impl<'a, G: ComponentGroup> MatchingIterMut<'a, G> {
    pub open spec fn todo(&self) -> Seq<int> { self.inner_iterator.todo() }
    pub open spec fn ready(&self) -> bool { self.inner_iterator.ready() }
    pub open spec fn archs(&self) -> Seq<Archetype> { self.inner_iterator.archetypes@ }

//@fn archetype_registry/iterators/matching_iter_mut.rs | impl<.*> MatchingIterMut<.*> | new -> r as MatchingIterMut::new
        requires walkable(sorted_mappings@, old(archetypes)@)
        ensures r.ready(), r.archs() == old(archetypes)@,
            G::DESCRIPTOR.valid() ==> r.todo() == matches(sorted_mappings@, old(archetypes)@, G::DESCRIPTOR.set(), G::DESCRIPTOR.archetype.len - 1, 0),
            !G::DESCRIPTOR.valid() ==> r.todo().len() == 0,
//@end
//@fn archetype_registry/iterators/matching_iter_mut.rs | impl<.*> Iterator for MatchingIterMut<.*> | next -> r as MatchingIterMut::next
//@sub `Self::Item` => `&'a mut SliceMutRefTuple<G>`
        requires old(self).ready()
        ensures final(self).ready(), final(self).inner_iterator.same(&old(self).inner_iterator),
            r matches Some(v) ==> old(self).todo().len() > 0 && v.rows() == old(self).archs()[old(self).todo()[0]].view(G::DESCRIPTOR.set()) && final(self).todo() =~= old(self).todo().skip(1),
            r is None ==> old(self).todo().len() == 0 && final(self).todo().len() == 0,
//@end
}

//@struct archetype_registry/iterators/matching_iter_mut.rs EntityMatchingIterMut
impl<'a, G: ComponentGroup> EntityMatchingIterMut<'a, G> {
    pub open spec fn todo(&self) -> Seq<int> { self.inner_iterator.todo() }
    pub open spec fn ready(&self) -> bool { self.inner_iterator.ready() }
    pub open spec fn archs(&self) -> Seq<Archetype> { self.inner_iterator.archetypes@ }

//@fn archetype_registry/iterators/matching_iter_mut.rs | impl<.*> EntityMatchingIterMut<.*> | new -> r as EntityMatchingIterMut::new
        requires walkable(sorted_mappings@, old(archetypes)@)
        ensures r.ready(), r.archs() == old(archetypes)@,
            G::DESCRIPTOR.valid() ==> r.todo() == matches(sorted_mappings@, old(archetypes)@, G::DESCRIPTOR.set(), G::DESCRIPTOR.archetype.len - 1, 0),
            !G::DESCRIPTOR.valid() ==> r.todo().len() == 0,
//@end
//@fn archetype_registry/iterators/matching_iter_mut.rs | impl<.*> Iterator for EntityMatchingIterMut<.*> | next -> r as EntityMatchingIterMut::next
//@sub `Self::Item` => `(&'a [Entity], &'a mut SliceMutRefTuple<G>)`
        requires old(self).ready()
        ensures final(self).ready(), final(self).inner_iterator.same(&old(self).inner_iterator),
            r matches Some(v) ==> old(self).todo().len() > 0 && v.1.rows() == old(self).archs()[old(self).todo()[0]].view(G::DESCRIPTOR.set()) && v.0@ =~= handles_in(old(self).archs()[old(self).todo()[0]].rows()) && final(self).todo() =~= old(self).todo().skip(1),
            r is None ==> old(self).todo().len() == 0 && final(self).todo().len() == 0,
//@end
}

//@struct archetype_registry/iterators/filter_matching_iter.rs FilterMatchingIter
impl<'a, G: ComponentGroup, F: Fn(&ArchetypeDescriptor) -> bool> FilterMatchingIter<'a, G, F> {
    pub open spec fn todo(&self) -> Seq<int> { self.inner_iterator.todo() }
    pub open spec fn ready(&self) -> bool { self.inner_iterator.ready() }
    pub open spec fn archs(&self) -> Seq<Archetype> { self.inner_iterator.archetypes@ }
    pub open spec fn filter(&self) -> F { self.inner_iterator.filter_closure }
//@fn archetype_registry/iterators/filter_matching_iter.rs | impl<.*> FilterMatchingIter<.*> | new -> r as FilterMatchingIter::new
        requires walkable(sorted_mappings@, archetypes@), total(filter_closure)
        ensures r.ready(), r.archs() == archetypes@, r.filter() == filter_closure,
            G::DESCRIPTOR.valid() ==> r.todo() == matches(sorted_mappings@, archetypes@, G::DESCRIPTOR.set(), G::DESCRIPTOR.archetype.len - 1, 0),
            !G::DESCRIPTOR.valid() ==> r.todo().len() == 0,
//@end
//@fn archetype_registry/iterators/filter_matching_iter.rs | impl<.*> Iterator for FilterMatchingIter<.*> | next -> r as FilterMatchingIter::next
//@sub `Self::Item` => `SliceRefTuple<'a, G>`
        requires old(self).ready()
        ensures final(self).ready(), final(self).inner_iterator.same(&old(self).inner_iterator),
            r matches Some(v) ==> old(self).todo().len() > final(self).todo().len()
                && rejected(old(self).filter(), old(self).archs(), old(self).todo().take(old(self).todo().len() - final(self).todo().len() - 1))
                && accepted(old(self).filter(), &old(self).archs()[old(self).todo()[old(self).todo().len() - final(self).todo().len() - 1]])
                && v.rows() == old(self).archs()[old(self).todo()[old(self).todo().len() - final(self).todo().len() - 1]].view(G::DESCRIPTOR.set())
                && final(self).todo() =~= old(self).todo().skip(old(self).todo().len() - final(self).todo().len()),
            r is None ==> rejected(old(self).filter(), old(self).archs(), old(self).todo()) && final(self).todo().len() == 0,
//@end
}

//@struct archetype_registry/iterators/filter_matching_iter.rs FilterEntityMatchingIter
impl<'a, G: ComponentGroup, F: Fn(&ArchetypeDescriptor) -> bool> FilterEntityMatchingIter<'a, G, F> {
    pub open spec fn todo(&self) -> Seq<int> { self.inner_iterator.todo() }
    pub open spec fn ready(&self) -> bool { self.inner_iterator.ready() }
    pub open spec fn archs(&self) -> Seq<Archetype> { self.inner_iterator.archetypes@ }
    pub open spec fn filter(&self) -> F { self.inner_iterator.filter_closure }
//@fn archetype_registry/iterators/filter_matching_iter.rs | impl<.*> FilterEntityMatchingIter<.*> | new -> r as FilterEntityMatchingIter::new
        requires walkable(sorted_mappings@, archetypes@), total(filter_closure)
        ensures r.ready(), r.archs() == archetypes@, r.filter() == filter_closure,
            G::DESCRIPTOR.valid() ==> r.todo() == matches(sorted_mappings@, archetypes@, G::DESCRIPTOR.set(), G::DESCRIPTOR.archetype.len - 1, 0),
            !G::DESCRIPTOR.valid() ==> r.todo().len() == 0,
//@end
//@fn archetype_registry/iterators/filter_matching_iter.rs | impl<.*> Iterator for FilterEntityMatchingIter<.*> | next -> r as FilterEntityMatchingIter::next
//@sub `Self::Item` => `(&'a [Entity], SliceRefTuple<'a, G>)`
        requires old(self).ready()
        ensures final(self).ready(), final(self).inner_iterator.same(&old(self).inner_iterator),
            r matches Some(v) ==> old(self).todo().len() > final(self).todo().len()
                && rejected(old(self).filter(), old(self).archs(), old(self).todo().take(old(self).todo().len() - final(self).todo().len() - 1))
                && accepted(old(self).filter(), &old(self).archs()[old(self).todo()[old(self).todo().len() - final(self).todo().len() - 1]])
                && v.1.rows() == old(self).archs()[old(self).todo()[old(self).todo().len() - final(self).todo().len() - 1]].view(G::DESCRIPTOR.set()) && v.0@ =~= handles_in(old(self).archs()[old(self).todo()[old(self).todo().len() - final(self).todo().len() - 1]].rows())
                && final(self).todo() =~= old(self).todo().skip(old(self).todo().len() - final(self).todo().len()),
            r is None ==> rejected(old(self).filter(), old(self).archs(), old(self).todo()) && final(self).todo().len() == 0,
//@end
}

//@struct archetype_registry/iterators/filter_matching_iter_mut.rs FilterMatchingIterMut
impl<'a, G: ComponentGroup, F: Fn(&ArchetypeDescriptor) -> bool> FilterMatchingIterMut<'a, G, F> {
    pub open spec fn todo(&self) -> Seq<int> { self.inner_iterator.todo() }
    pub open spec fn ready(&self) -> bool { self.inner_iterator.ready() }
    pub open spec fn archs(&self) -> Seq<Archetype> { self.inner_iterator.archetypes@ }
    pub open spec fn filter(&self) -> F { self.inner_iterator.filter_closure }
//@fn archetype_registry/iterators/filter_matching_iter_mut.rs | impl<.*> FilterMatchingIterMut<.*> | new -> r as FilterMatchingIterMut::new
        requires walkable(sorted_mappings@, old(archetypes)@), total(filter_closure)
        ensures r.ready(), r.archs() == old(archetypes)@, r.filter() == filter_closure,
            G::DESCRIPTOR.valid() ==> r.todo() == matches(sorted_mappings@, old(archetypes)@, G::DESCRIPTOR.set(), G::DESCRIPTOR.archetype.len - 1, 0),
            !G::DESCRIPTOR.valid() ==> r.todo().len() == 0,
//@end
//@fn archetype_registry/iterators/filter_matching_iter_mut.rs | impl<.*> Iterator for FilterMatchingIterMut<.*> | next -> r as FilterMatchingIterMut::next
//@sub `Self::Item` => `&'a mut SliceMutRefTuple<G>`
        requires old(self).ready()
        ensures final(self).ready(), final(self).inner_iterator.same(&old(self).inner_iterator),
            r matches Some(v) ==> old(self).todo().len() > final(self).todo().len()
                && rejected(old(self).filter(), old(self).archs(), old(self).todo().take(old(self).todo().len() - final(self).todo().len() - 1))
                && accepted(old(self).filter(), &old(self).archs()[old(self).todo()[old(self).todo().len() - final(self).todo().len() - 1]])
                && v.rows() == old(self).archs()[old(self).todo()[old(self).todo().len() - final(self).todo().len() - 1]].view(G::DESCRIPTOR.set())
                && final(self).todo() =~= old(self).todo().skip(old(self).todo().len() - final(self).todo().len()),
            r is None ==> rejected(old(self).filter(), old(self).archs(), old(self).todo()) && final(self).todo().len() == 0,
//@end
}

//@struct archetype_registry/iterators/filter_matching_iter_mut.rs FilterEntityMatchingIterMut
impl<'a, G: ComponentGroup, F: Fn(&ArchetypeDescriptor) -> bool> FilterEntityMatchingIterMut<'a, G, F> {
    pub open spec fn todo(&self) -> Seq<int> { self.inner_iterator.todo() }
    pub open spec fn ready(&self) -> bool { self.inner_iterator.ready() }
    pub open spec fn archs(&self) -> Seq<Archetype> { self.inner_iterator.archetypes@ }
    pub open spec fn filter(&self) -> F { self.inner_iterator.filter_closure }
//@fn archetype_registry/iterators/filter_matching_iter_mut.rs | impl<.*> FilterEntityMatchingIterMut<.*> | new -> r as FilterEntityMatchingIterMut::new
        requires walkable(sorted_mappings@, old(archetypes)@), total(filter_closure)
        ensures r.ready(), r.archs() == old(archetypes)@, r.filter() == filter_closure,
            G::DESCRIPTOR.valid() ==> r.todo() == matches(sorted_mappings@, old(archetypes)@, G::DESCRIPTOR.set(), G::DESCRIPTOR.archetype.len - 1, 0),
            !G::DESCRIPTOR.valid() ==> r.todo().len() == 0,
//@end
//@fn archetype_registry/iterators/filter_matching_iter_mut.rs | impl<.*> Iterator for FilterEntityMatchingIterMut<.*> | next -> r as FilterEntityMatchingIterMut::next
//@sub `Self::Item` => `(&'a [Entity], &'a mut SliceMutRefTuple<G>)`
        requires old(self).ready()
        ensures final(self).ready(), final(self).inner_iterator.same(&old(self).inner_iterator),
            r matches Some(v) ==> old(self).todo().len() > final(self).todo().len()
                && rejected(old(self).filter(), old(self).archs(), old(self).todo().take(old(self).todo().len() - final(self).todo().len() - 1))
                && accepted(old(self).filter(), &old(self).archs()[old(self).todo()[old(self).todo().len() - final(self).todo().len() - 1]])
                && v.1.rows() == old(self).archs()[old(self).todo()[old(self).todo().len() - final(self).todo().len() - 1]].view(G::DESCRIPTOR.set()) && v.0@ =~= handles_in(old(self).archs()[old(self).todo()[old(self).todo().len() - final(self).todo().len() - 1]].rows())
                && final(self).todo() =~= old(self).todo().skip(old(self).todo().len() - final(self).todo().len()),
            r is None ==> rejected(old(self).filter(), old(self).archs(), old(self).todo()) && final(self).todo().len() == 0,
//@end
}

/// The deref coercion of a vector to a slice.
#[verifier::external_body]
pub fn slice_mut<'a>(s: &'a mut Vec<Archetype>) -> (r: &'a mut [Archetype])
    ensures r@ == old(s)@, final(s)@ == final(r)@
{ s }

impl ArchetypeRegistry {
//@fn archetype_registry/mod.rs | impl ArchetypeRegistry | iter_components_matching -> r as ArchetypeRegistry::iter_components_matching
//@result MatchingIter<'a, G>
        requires self.inv(), self.filled()
        ensures r.ready(), r.archs() == self.archs(), r.todo() =~= all_matches(self, G::DESCRIPTOR.archetype),
//@sub `&mut self.archetypes` => `slice_mut(&mut self.archetypes)`
//@start
        proof { G::canonical(); lemma_matches(*self, G::DESCRIPTOR.archetype); }
//@end

//@fn archetype_registry/mod.rs | impl ArchetypeRegistry | iter_entity_components_matching -> r as ArchetypeRegistry::iter_entity_components_matching
//@result EntityMatchingIter<'a, G>
        requires self.inv(), self.filled()
        ensures r.ready(), r.archs() == self.archs(), r.todo() =~= all_matches(self, G::DESCRIPTOR.archetype),
//@sub `&mut self.archetypes` => `slice_mut(&mut self.archetypes)`
//@start
        proof { G::canonical(); lemma_matches(*self, G::DESCRIPTOR.archetype); }
//@end

//@fn archetype_registry/mod.rs | impl ArchetypeRegistry | iter_components_matching_mut -> r as ArchetypeRegistry::iter_components_matching_mut
//@result MatchingIterMut<'a, G>
        requires old(self).inv(), old(self).filled()
        ensures r.ready(), r.archs() == old(self).archs(), r.todo() =~= all_matches(old(self), G::DESCRIPTOR.archetype),
//@sub `&mut self.archetypes` => `slice_mut(&mut self.archetypes)`
//@start
        proof { G::canonical(); lemma_matches(*old(self), G::DESCRIPTOR.archetype); }
//@end

//@fn archetype_registry/mod.rs | impl ArchetypeRegistry | iter_entity_components_matching_mut -> r as ArchetypeRegistry::iter_entity_components_matching_mut
//@result EntityMatchingIterMut<'a, G>
        requires old(self).inv(), old(self).filled()
        ensures r.ready(), r.archs() == old(self).archs(), r.todo() =~= all_matches(old(self), G::DESCRIPTOR.archetype),
//@sub `&mut self.archetypes` => `slice_mut(&mut self.archetypes)`
//@start
        proof { G::canonical(); lemma_matches(*old(self), G::DESCRIPTOR.archetype); }
//@end

//@fn archetype_registry/mod.rs | impl ArchetypeRegistry | iter_filtered_components_matching -> r as ArchetypeRegistry::iter_filtered_components_matching
//@result FilterMatchingIter<'a, G, F>
        requires self.inv(), self.filled(), total(filter_closure)
        ensures r.ready(), r.archs() == self.archs(), r.todo() =~= all_matches(self, G::DESCRIPTOR.archetype), r.filter() == filter_closure,
//@sub `&mut self.archetypes` => `slice_mut(&mut self.archetypes)`
//@start
        proof { G::canonical(); lemma_matches(*self, G::DESCRIPTOR.archetype); }
//@end

//@fn archetype_registry/mod.rs | impl ArchetypeRegistry | iter_filtered_entity_components_matching -> r as ArchetypeRegistry::iter_filtered_entity_components_matching
//@result FilterEntityMatchingIter<'a, G, F>
        requires self.inv(), self.filled(), total(filter_closure)
        ensures r.ready(), r.archs() == self.archs(), r.todo() =~= all_matches(self, G::DESCRIPTOR.archetype), r.filter() == filter_closure,
//@sub `&mut self.archetypes` => `slice_mut(&mut self.archetypes)`
//@start
        proof { G::canonical(); lemma_matches(*self, G::DESCRIPTOR.archetype); }
//@end

//@fn archetype_registry/mod.rs | impl ArchetypeRegistry | iter_filtered_components_matching_mut -> r as ArchetypeRegistry::iter_filtered_components_matching_mut
//@result FilterMatchingIterMut<'a, G, F>
        requires old(self).inv(), old(self).filled(), total(filter_closure)
        ensures r.ready(), r.archs() == old(self).archs(), r.todo() =~= all_matches(old(self), G::DESCRIPTOR.archetype), r.filter() == filter_closure,
//@sub `&mut self.archetypes` => `slice_mut(&mut self.archetypes)`
//@start
        proof { G::canonical(); lemma_matches(*old(self), G::DESCRIPTOR.archetype); }
//@end

//@fn archetype_registry/mod.rs | impl ArchetypeRegistry | iter_filtered_entity_components_matching_mut -> r as ArchetypeRegistry::iter_filtered_entity_components_matching_mut
//@result FilterEntityMatchingIterMut<'a, G, F>
        requires old(self).inv(), old(self).filled(), total(filter_closure)
        ensures r.ready(), r.archs() == old(self).archs(), r.todo() =~= all_matches(old(self), G::DESCRIPTOR.archetype), r.filter() == filter_closure,
//@sub `&mut self.archetypes` => `slice_mut(&mut self.archetypes)`
//@start
        proof { G::canonical(); lemma_matches(*old(self), G::DESCRIPTOR.archetype); }
//@end
}

impl Registry {
//@fn registry/registry.rs | impl Registry | iter_components_matching -> r as Registry::iter_components_matching
//@result MatchingIter<'registry, G>
        requires self.wf()
        ensures r.ready(), r.archs() == self.archs(), self.visits(r.todo(), G::DESCRIPTOR.archetype),
//@start
        proof { G::canonical(); lemma_visits(*self, G::DESCRIPTOR.archetype); }
//@end

//@fn registry/registry.rs | impl Registry | iter_entity_components_matching -> r as Registry::iter_entity_components_matching
//@result EntityMatchingIter<'registry, G>
        requires self.wf()
        ensures r.ready(), r.archs() == self.archs(), self.visits(r.todo(), G::DESCRIPTOR.archetype),
//@start
        proof { G::canonical(); lemma_visits(*self, G::DESCRIPTOR.archetype); }
//@end

//@fn registry/registry.rs | impl Registry | iter_components_matching_mut -> r as Registry::iter_components_matching_mut
//@result MatchingIterMut<'registry, G>
        requires old(self).wf()
        ensures r.ready(), r.archs() == old(self).archs(), old(self).visits(r.todo(), G::DESCRIPTOR.archetype),
//@start
        proof { G::canonical(); lemma_visits(*old(self), G::DESCRIPTOR.archetype); }
//@end

//@fn registry/registry.rs | impl Registry | iter_entity_components_matching_mut -> r as Registry::iter_entity_components_matching_mut
//@result EntityMatchingIterMut<'registry, G>
        requires old(self).wf()
        ensures r.ready(), r.archs() == old(self).archs(), old(self).visits(r.todo(), G::DESCRIPTOR.archetype),
//@start
        proof { G::canonical(); lemma_visits(*old(self), G::DESCRIPTOR.archetype); }
//@end

//@fn registry/registry.rs | impl Registry | iter_filtered_components_matching -> r as Registry::iter_filtered_components_matching
//@result FilterMatchingIter<'registry, G, F>
        requires self.wf(), total(filter_closure)
        ensures r.ready(), r.archs() == self.archs(), self.visits(r.todo(), G::DESCRIPTOR.archetype), r.filter() == filter_closure,
//@start
        proof { G::canonical(); lemma_visits(*self, G::DESCRIPTOR.archetype); }
//@end

//@fn registry/registry.rs | impl Registry | iter_filtered_entity_components_matching -> r as Registry::iter_filtered_entity_components_matching
//@result FilterEntityMatchingIter<'registry, G, F>
        requires self.wf(), total(filter_closure)
        ensures r.ready(), r.archs() == self.archs(), self.visits(r.todo(), G::DESCRIPTOR.archetype), r.filter() == filter_closure,
//@start
        proof { G::canonical(); lemma_visits(*self, G::DESCRIPTOR.archetype); }
//@end

//@fn registry/registry.rs | impl Registry | iter_filtered_components_matching_mut -> r as Registry::iter_filtered_components_matching_mut
//@result FilterMatchingIterMut<'registry, G, F>
        requires old(self).wf(), total(filter_closure)
        ensures r.ready(), r.archs() == old(self).archs(), old(self).visits(r.todo(), G::DESCRIPTOR.archetype), r.filter() == filter_closure,
//@start
        proof { G::canonical(); lemma_visits(*old(self), G::DESCRIPTOR.archetype); }
//@end

//@fn registry/registry.rs | impl Registry | iter_filtered_entity_components_matching_mut -> r as Registry::iter_filtered_entity_components_matching_mut
//@result FilterEntityMatchingIterMut<'registry, G, F>
        requires old(self).wf(), total(filter_closure)
        ensures r.ready(), r.archs() == old(self).archs(), old(self).visits(r.todo(), G::DESCRIPTOR.archetype), r.filter() == filter_closure,
//@start
        proof { G::canonical(); lemma_visits(*old(self), G::DESCRIPTOR.archetype); }
//@end
}
// ---------------------------------------------------------------------------------------------------------------------
// Histories: any sequence of operations on a registry, each as its contract says.
pub ghost enum Op {
    Creation { e: Entity, ids: Seq<u16>, comps: Map<u16, Bits> },
    /// Destruction or removal.
    End { e: Entity },
    /// A component was added or removed.
    Change { e: Entity, ids: Seq<u16>, comps: Map<u16, Bits> },
    /// Everything else: failing calls, reads, writes of values, iteration.
    Other,
}
pub open spec fn ends(op: Op, k: int) -> int { if op matches Op::End { e } && e.idx() == k { 1 } else { 0 } }
/// How often slot k was vacated.
pub open spec fn reuses(ops: Seq<Op>, k: int) -> int
    decreases ops.len()
{
    if ops.len() == 0 { 0 } else { reuses(ops.drop_last(), k) + ends(ops.last(), k) }
}
pub open spec fn performs(r: Registry, o: Registry, op: Op) -> bool {
    match op {
        Op::Creation { e, ids, comps } => 1 <= ids.len() <= 14 && r.created(&o, e, ids, comps),
        Op::End { e } => r.freed(&o, e),
        Op::Change { e, ids, comps } => 1 <= ids.len() <= 14 && r.moved(&o, e, ids, comps),
        Op::Other => r.entities.same(&o.entities),
    }
}
pub open spec fn history(rs: Seq<Registry>, ops: Seq<Op>) -> bool {
    &&& rs.len() == ops.len() + 1
    &&& rs[0].slots().len() == 0 && rs[0].entities.head() == MAXE()
    &&& forall|t: int| 0 <= t < rs.len() ==> (#[trigger] rs[t]).wf()
    &&& forall|t: int| #![trigger ops[t]] 0 <= t < ops.len() ==> performs(rs[t + 1], rs[t], ops[t])
}
pub open spec fn slot_step(o: Seq<EntityEntry>, r: Seq<EntityEntry>, op: Op, k: int) -> bool {
    &&& r.len() >= o.len()
    &&& k < o.len() ==> r[k].ver() == (o[k].ver() + ends(op, k)) % 256
    &&& k < o.len() && o[k].live() && ends(op, k) == 0 ==> r[k].live()
    &&& o.len() <= k < r.len() ==> r[k].ver() == 0 && r[k].live()
    &&& k >= o.len() ==> ends(op, k) == 0
}
//@lemma
pub proof fn lemma_slot_creation(r: EntityRegistry, o: EntityRegistry, e: Entity, row: int, arch: int, op: Op, k: int)
    requires o.inv(), !o.exhausted(), r.creates(&o, e, row, arch), 0 <= k, ends(op, k) == 0, r.has(e)
    ensures slot_step(o.slots(), r.slots(), op, k), e.idx() < o.slots().len() ==> !o.slot(e).live(), r.slot(e).live(), r.slot(e).ver() == e.ver(), e.idx() < r.slots().len()
{
    let (n, rank) = choose|n: nat, rank: spec_fn(int) -> nat| chained(o.slots(), o.head(), n, rank);
    assert(chained(o.slots(), o.head(), n, rank));
    if k < o.slots().len() { o.slots()[k].range(); }
    if o.head() != MAXE() { assert(is_free(o.slots(), o.head())); }
}
//@lemma
pub proof fn lemma_slot_end(r: Registry, o: Registry, e: Entity, k: int)
    requires o.wf(), r.freed(&o, e), 0 <= k
    ensures slot_step(o.slots(), r.slots(), Op::End { e }, k)
{
    hide(ArchetypeRegistry::inv); hide(EntityRegistry::inv); hide(ArchetypeRegistry::updates);
    hide(Registry::wf);
    lemma_last_has(o, e);
    if k < o.slots().len() { o.slots()[k].range(); }
}
//@lemma
pub proof fn lemma_slot_change(r: Registry, o: Registry, e: Entity, ids: Seq<u16>, comps: Map<u16, Bits>, k: int)
    requires o.wf(), r.moved(&o, e, ids, comps), 0 <= k, r.has(e)
    ensures slot_step(o.slots(), r.slots(), Op::Change { e, ids, comps }, k)
{
    hide(ArchetypeRegistry::inv); hide(EntityRegistry::inv); hide(ArchetypeRegistry::extends); hide(ArchetypeRegistry::slots);
    hide(Registry::wf);
    lemma_last_has(o, e);
    if k < o.slots().len() { o.slots()[k].range(); }
}
/// What one operation does to slot k.
//@lemma
pub proof fn lemma_slot_step(r: Registry, o: Registry, op: Op, k: int)
    requires o.wf(), performs(r, o, op), 0 <= k
    ensures slot_step(o.slots(), r.slots(), op, k),
        op matches Op::Creation { e, ids, comps } ==> ends(op, k) == 0 && r.has(e) && (e.idx() < o.slots().len() ==> !o.slots()[e.idx()].live()),
{
    hide(ArchetypeRegistry::inv); hide(EntityRegistry::inv); hide(ArchetypeRegistry::extends); hide(ArchetypeRegistry::slots);
    hide(Registry::rows_ok); hide(Registry::slots_ok); hide(Registry::moved); hide(Registry::freed); hide(EntityRegistry::creates);
    match op {
        Op::Creation { e, ids, comps } => {
            lemma_created(r, o, e, ids, comps);
            lemma_slot_creation(r.entities, o.entities, e, Registry::base(&o, ids).len() as int, Registry::block(&o, ids), op, k);
        },
        Op::End { e } => { lemma_slot_end(r, o, e, k); },
        Op::Change { e, ids, comps } => { lemma_moved(r, o, e, ids, comps); assert(r.has(e) == o.has(e)); assert(o.has(e)) by { reveal(Registry::moved); } lemma_slot_change(r, o, e, ids, comps, k); },
        Op::Other => { if k < o.slots().len() { o.slots()[k].range(); } },
    }
}
//@lemma
pub proof fn lemma_last_has(o: Registry, e: Entity)
    requires o.wf(), o.has(e)
    ensures o.has(o.last(e)), o.last(e).idx() != e.idx() || o.is_last(e), o.slot(o.last(e)).arch() == o.slot(e).arch(), o.slot(e).row() < o.home(e).n()
{
    let s = o.slot(e);
    assert(o.slots()[e.idx()].live());
    let a = s.arch();
    let k = o.home(e).n() - 1;
    assert(o.archs()[a].rows()[k].handle == o.last(e));
    assert(o.has(o.last(e)) && o.slot(o.last(e)).row() == k);
}
/// The version of a slot counts how often it was vacated, modulo 256.
//@lemma
pub proof fn lemma_versions(rs: Seq<Registry>, ops: Seq<Op>, t: int, k: int)
    requires history(rs, ops), 0 <= t < rs.len(), 0 <= k
    ensures reuses(ops.take(t), k) >= 0,
        k < rs[t].slots().len() ==> rs[t].slots()[k].ver() == reuses(ops.take(t), k) % 256,
        k >= rs[t].slots().len() ==> reuses(ops.take(t), k) == 0,
    decreases t
{
    hide(performs); hide(Registry::wf); hide(EntityEntry::ver); hide(EntityEntry::live);
    if t > 0 {
        lemma_versions(rs, ops, t - 1, k);
        assert(ops.take(t).drop_last() =~= ops.take(t - 1));
        let op = ops[t - 1];
        assert(performs(rs[t - 1 + 1], rs[t - 1], op) && rs[t - 1].wf());
        lemma_slot_step(rs[t], rs[t - 1], op, k);
        let v = reuses(ops.take(t - 1), k);
        assert((v % 256 + 1) % 256 == (v + 1) % 256) by (nonlinear_arith);
        assert((v % 256) % 256 == v % 256) by (nonlinear_arith);
    }
}
/// A live slot stays live unless it is vacated.
//@lemma
pub proof fn lemma_lives(rs: Seq<Registry>, ops: Seq<Op>, s: int, t: int, k: int)
    requires history(rs, ops), 0 <= s <= t < rs.len(), 0 <= k < rs[s].slots().len(), rs[s].slots()[k].live()
    ensures reuses(ops.take(s), k) <= reuses(ops.take(t), k), k < rs[t].slots().len(),
        reuses(ops.take(s), k) == reuses(ops.take(t), k) ==> rs[t].slots()[k].live(),
    decreases t
{
    hide(performs); hide(Registry::wf); hide(EntityEntry::ver); hide(EntityEntry::live);
    if s < t {
        lemma_lives(rs, ops, s, t - 1, k);
        assert(ops.take(t).drop_last() =~= ops.take(t - 1));
        let op = ops[t - 1];
        assert(performs(rs[t - 1 + 1], rs[t - 1], op) && rs[t - 1].wf());
        lemma_slot_step(rs[t], rs[t - 1], op, k);
    }
}
//@lemma
pub proof fn lemma_apart_mod(a: int, b: int)
    requires a < b, a % 256 == b % 256
    ensures b >= a + 256
{}
/// C01: a handle given out twice has had its slot vacated a multiple of 256 times in between, at least 256 times.
//@lemma
pub proof fn lemma_handles_fresh(rs: Seq<Registry>, ops: Seq<Op>, s: int, t: int)
    requires history(rs, ops), 0 <= s < t < ops.len(), ops[s] is Creation, ops[t] is Creation, ops[s]->Creation_e == ops[t]->Creation_e
    ensures reuses(ops.take(t), ops[s]->Creation_e.idx()) >= reuses(ops.take(s), ops[s]->Creation_e.idx()) + 256
{
    hide(performs); hide(Registry::wf); hide(EntityEntry::ver); hide(EntityEntry::live);
    let e = ops[s]->Creation_e;
    let k = e.idx();
    assert(performs(rs[s + 1], rs[s], ops[s]) && performs(rs[t + 1], rs[t], ops[t]));
    assert(rs[s].wf() && rs[t].wf());
    lemma_slot_step(rs[s + 1], rs[s], ops[s], k);
    lemma_slot_step(rs[t + 1], rs[t], ops[t], k);
    lemma_versions(rs, ops, s + 1, k);
    lemma_versions(rs, ops, t + 1, k);
    lemma_versions(rs, ops, s, k);
    lemma_versions(rs, ops, t, k);
    assert(ops.take(s + 1).drop_last() =~= ops.take(s));
    assert(ops.take(t + 1).drop_last() =~= ops.take(t));
    assert(ends(ops[s], k) == 0 && ends(ops[t], k) == 0);
    lemma_lives(rs, ops, s + 1, t, k);
    let (a, b) = (reuses(ops.take(s), k), reuses(ops.take(t), k));
    assert(reuses(ops.take(s + 1), k) == a && reuses(ops.take(t + 1), k) == b);
    assert(a % 256 == e.ver() && b % 256 == e.ver());
    assert(a < b);
    lemma_apart_mod(a, b);
}
} // verus!
fn main() {}
