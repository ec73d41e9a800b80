"""Which obligations decide which property."""
from types import SimpleNamespace as NS

HARNESS, ORDER = {}, []


def h(names, fns, props, scope="unbounded", thorough=""):
    """names: harnesses; thorough: those of them left to the thorough tier."""
    t = thorough.split()
    for n in (names + " " + thorough).split():
        HARNESS[n] = NS(name=n, fns=[f.strip() for f in fns.split(",")], props=props.split(), scope=scope, thorough=n in t)
        ORDER.append(n)


def harnesses(prop):
    return [HARNESS[n] for n in ORDER if prop in HARNESS[n].props]


# Functions under contract in /verif/verus/shard.rs: (pattern of keys, properties).
VERUS = []


def v(patterns, props):
    VERUS.extend((x, props.split()) for x in patterns.split())


def units(prop):
    """Keys of the property, and the lemmas they rest on."""
    import fnmatch, verus
    ks = [k for k in verus.keys() if any(prop in ps and fnmatch.fnmatchcase(k, x) for x, ps in VERUS)]
    return ks + verus.LEMMAS if ks else []


v("IndexInArchetype::* ArchetypeIndex::*", "C16 C18")
v("Entity::*", "C16 C01 C02")
v("EntityEntry::*", "C16 C01 C02 C03")
v("EntityRegistry::default EntityRegistry::can_register_new_entity", "C01 C18")
v("EntityRegistry::create_entity", "C01 C12 C18")
v("EntityRegistry::destroy_entity", "C01 C02 C12 C18")
v("EntityRegistry::entity_entry*", "C01 C02 C19")
v("ComponentTypeId::* ArchetypeId::* fnv1a_hash_*", "C17")
v("ComponentDescriptor::component_type_id ComponentDescriptor::size ComponentDescriptor::align ComponentDescriptor::new ComponentDescriptor::into*", "C14 C15")
v("ComponentDescriptor::drop_handler_wrapper", "C08 C13")
v("ArchetypeDescriptor::new ArchetypeDescriptor::is_valid ArchetypeDescriptor::archetype_id ArchetypeDescriptor::len ArchetypeDescriptor::components*", "C14 C15")
v("ArchetypeDescriptor::compute_archetype_id", "C14 C15 C17")
v("ArchetypeDescriptor::contains_subset", "C15 C10")
v("ArchetypeDescriptor::excludes_subset", "C15")
v("ArchetypeDescriptor::add_component", "C15 C05")
v("ArchetypeDescriptor::add_component_from", "C15")
v("Component::ID", "C17")
v("Component::DESCRIPTOR", "C14 C13")
v("ComponentGroup::DESCRIPTOR/*", "C14")
v("ArchetypeDescriptor::remove_component", "C15 C06")
v("ComponentGroupDescriptor::*", "C14")
# the functions of groups: a single type, and the macro's expansion for 2 to 14
v("ComponentGroup::as_sorted_pointers/*", "C04 C14")
v("ComponentGroup::read_from_sorted_pointers/*", "C07 C14")
v("ComponentGroup::pointers_as_ref_tuple/*", "C19")
v("ComponentGroup::pointers_as_mut_ref_tuple/*", "C20")
v("ComponentGroup::slice_unchecked/*", "C09 C10")
v("ComponentGroup::slice_unchecked_mut/*", "C10 C20")
# rows and blocks: every type list, every number of rows, the heap as ghost state
v("archetype::allocate archetype::reallocate archetype::deallocate Archetype::with_capacity Archetype::resize_capacity Archetype::dealloc", "C13")
v("Archetype::drop Archetype::drop_entities", "C08 C13")
v("Archetype::drop_entity", "C03 C08")
v("Archetype::swap_entities", "C03 C05 C06 C07")
v("Archetype::entities Archetype::entities_mut", "C03 C10 C12")
v("Archetype::offset_sorted_pointers_unchecked Archetype::read_components_exact_unchecked", "C07 C08")
v("Archetype::write_entity_unchecked", "C04 C08")
v("Archetype::write_single_component_unchecked", "C05")
v("Archetype::read_component_unchecked", "C06")
v("Archetype::copy_common_components_between_archetypes_unchecked", "C05 C06 C08")
v("Archetype::get_component_unchecked Archetype::get_fuzzy_components_unchecked", "C19")
v("Archetype::get_component_unchecked_mut Archetype::get_fuzzy_components_unchecked_mut", "C20")
v("Archetype::get_fuzzy_pointers_unchecked", "C10 C19 C20")
v("Archetype::get_slices_unchecked_exact Archetype::get_slices_unchecked_exact_mut", "C09 C10")
v("Archetype::get_fuzzy_slices_unchecked* Archetype::get_entity_fuzzy_slices_unchecked*", "C10 C11")
v("Archetype::get_slices_unchecked_exact_mut Archetype::get_fuzzy_slices_unchecked_mut Archetype::get_entity_fuzzy_slices_unchecked_mut", "C20")
v("Archetype::push_entity_unchecked", "C04 C08 C13")
v("Archetype::push_uninitialized_entity", "C05 C06 C13")
v("Archetype::swap_drop_unchecked", "C03 C08")
v("Archetype::swap_remove_unchecked", "C03 C07 C08")
v("Archetype::swap_to_last_unchecked Archetype::decrement_len_unchecked", "C03 C05 C06 C08")
v("Archetype::resize_if_necessary Archetype::len Archetype::capacity Archetype::is_full Archetype::new Archetype::descriptor", "C13")
v("ArchetypeRegistry::search_level ArchetypeRegistry::find_archetype* ArchetypeRegistry::default ArchetypeRegistry::get_unchecked*", "C09")
v("ArchetypeRegistry::find_or_create_archetype", "C04 C09 C18")
v("ArchetypeRegistry::find_or_create_archetype_adding_component", "C05 C09 C18")
v("ArchetypeRegistry::find_or_create_archetype_removing_component", "C06 C09 C18")
v("disjoint_mut", "C05 C06 C20")
v("ArchetypeDescriptor::has_component", "C15 C19")
v("Registry::has_component Registry::has_components Registry::get_component Registry::get_components", "C02 C19")
v("Registry::get_component_mut Registry::get_components_mut", "C02 C03 C08 C19 C20")
v("Registry::iter_components_exact Registry::iter_entity_components_exact", "C09 C10")
v("Registry::iter_components_exact_mut Registry::iter_entity_components_exact_mut", "C09 C10 C20")
v("EntityIter::* EntityRegistry::iter Registry::iter_entities", "C12")
v("ArchetypeIter* MatchingIter* EntityMatchingIter* *Registry::iter_components_matching* *Registry::iter_entity_components_matching*", "C10")
v("Filter*Iter* *Registry::iter_filtered_*", "C11")
v("ArchetypeDescriptor::contains_subset", "C11 C19")
v("Registry::create_entity", "C01 C03 C04 C08 C09 C12 C18")
v("Registry::destroy_entity", "C01 C02 C03 C08 C12")
v("Registry::remove_entity", "C01 C02 C03 C07 C08 C12")
v("Registry::add_component", "C02 C03 C05 C08 C09 C18")
v("Registry::remove_component", "C02 C03 C06 C08 C09 C18")

# what a property rests on besides
GROWTH = "Archetype::resize_if_necessary Archetype::resize_capacity archetype::reallocate "
SEARCH = "ArchetypeRegistry::search_level ArchetypeRegistry::find_archetype* "
v("Registry::add_component Registry::remove_component Archetype::swap_entities Archetype::swap_to_last_unchecked", "C01")
v(GROWTH + "Archetype::push_* Archetype::write_* Archetype::read_* Archetype::copy_common_components_between_archetypes_unchecked "
  "ArchetypeRegistry::find_or_create_archetype*", "C03")
v(GROWTH + SEARCH + "ComponentGroupDescriptor::* ComponentGroup::DESCRIPTOR/* Registry::has_component Registry::get_component Archetype::get_component_unchecked "
  "ArchetypeDescriptor::has_component", "C04")
v(GROWTH + SEARCH, "C05 C06")
v("ComponentGroupDescriptor::* ComponentGroup::DESCRIPTOR/* ArchetypeDescriptor::contains_subset", "C07")
v(GROWTH + "Archetype::dealloc archetype::deallocate Component::DESCRIPTOR Archetype::push_uninitialized_entity Archetype::write_single_component_unchecked "
  "Archetype::read_component_unchecked Archetype::swap_entities", "C08")
v("ArchetypeDescriptor::add_component ArchetypeDescriptor::remove_component ArchetypeDescriptor::compute_archetype_id", "C09")
v("ArchetypeRegistry::find_or_create_archetype* " + SEARCH, "C10 C11")
v("Registry::add_component Registry::remove_component", "C10 C11")
v("EntityEntry::*", "C12")
v("Archetype::*", "C13")
v(GROWTH + "Archetype::push_* ArchetypeDescriptor::add_component ArchetypeDescriptor::remove_component", "C18")
v("ComponentGroupDescriptor::*", "C19 C20")
v("ArchetypeIterMut* MatchingIterMut* EntityMatchingIterMut* FilterArchetypeIterMut* FilterMatchingIterMut* FilterEntityMatchingIterMut*", "C20")
v("ArchetypeDescriptor::new ArchetypeDescriptor::add_component ArchetypeDescriptor::remove_component ComponentGroupDescriptor::new", "C17")


# --- encodings: all values -------------------------------------------------------------------------------------------
h("enc::entity_pack enc::entity_raw enc::entity_setters",
  "Entity::new_unchecked, Entity::index, Entity::version, Entity::raw, Entity::from_raw, Entity::is_valid, Entity::set_index, Entity::set_version",
  "C16 C01 C02")
h("enc::index_types", "IndexInArchetype::new, IndexInArchetype::new_unchecked, IndexInArchetype::value, IndexInArchetype::to_bytes, "
  "IndexInArchetype::from_bytes, ArchetypeIndex::new, ArchetypeIndex::value", "C16 C18")
h("enc::entry_fields", "EntityEntry::version, EntityEntry::set_version, EntityEntry::index_in_archetype, EntityEntry::set_index_in_archetype, "
  "EntityEntry::archetype_index, EntityEntry::set_archetype_index, EntityEntry::is_valid, EntityEntry::invalidate", "C16 C01 C03")

h("hash::bytes", "ComponentTypeId::to_ne_bytes, ComponentTypeId::from_u16, ComponentTypeId::into_u16", "C17 C14")
h("hash::single", "Into<ArchetypeDescriptor> for ComponentDescriptor, From<ComponentTypeId> for ArchetypeId, ArchetypeDescriptor::new", "C14 C15 C17")
h("hash::destructor", "ComponentDescriptor::drop_handler_wrapper", "C08", scope="up to 4 values")
# --- descriptors: all identifiers, sizes, alignments; all 14 sizes where feasible ------------------------------------
h("desc::group_new_1 desc::group_new_2 desc::group_new_3 desc::group_new_4 desc::group_new_5 desc::group_new_6 desc::group_new_limits",
  "ComponentGroupDescriptor::new, ComponentGroupDescriptor::validate_component_descriptors, ComponentGroupDescriptor::compute_sorted_descriptors, "
  "ComponentGroupDescriptor::compute_sort_mappings, ArchetypeDescriptor::compute_archetype_id, ArchetypeDescriptor::new", "C14",
  scope="groups of N types, N in the name; all identifiers", thorough="desc::group_new_8 desc::group_new_14")
h("desc::contains_subset_sound", "ArchetypeDescriptor::contains_subset", "C15", thorough="desc::contains_subset_complete")
h("desc::excludes_subset_sound", "ArchetypeDescriptor::excludes_subset", "C15", thorough="desc::excludes_subset_complete")
h("desc::descriptor_add_1 desc::descriptor_add_2 desc::descriptor_add_5 desc::descriptor_add_14",
  "ArchetypeDescriptor::add_component, ArchetypeDescriptor::compute_archetype_id", "C15 C05",
  scope="sets of N types, N in the name; all identifiers", thorough="desc::descriptor_add_13")
h("desc::descriptor_remove_1 desc::descriptor_remove_2 desc::descriptor_remove_5 desc::descriptor_remove_14",
  "ArchetypeDescriptor::remove_component, ArchetypeDescriptor::compute_archetype_id", "C15 C06",
  scope="sets of N types, N in the name; all identifiers", thorough="desc::descriptor_remove_13")

# --- entity registry: any number of slots ---------------------------------------------------------------------------
h("ent::init", "EntityRegistry::default, EntityRegistry::can_register_new_entity", "C01 C18")
h("ent::lookup", "EntityRegistry::entity_entry, EntityRegistry::entity_entry_mut", "C01 C02 C03 C19")
h("", "EntityRegistry::destroy_entity", "C01 C02 C03 C18", thorough="ent::destroy")
h("", "EntityRegistry::create_entity, EntityRegistry::can_register_new_entity", "C01 C18",
  thorough="ent::create_full ent::create_growing ent::create_appending ent::create_reusing ent::pre_satisfiable")

# --- archetypes: any number of rows, symbolic heap -------------------------------------------------------------------
SH = "any number of rows and capacity; representative component types (code is generic in size and alignment)"
h("arch::with_capacity_ba arch::with_capacity_czw", "Archetype::with_capacity, archetype::allocate", "C13", SH)
h("arch::push_ba arch::push_czw", "Archetype::push_entity_unchecked, Archetype::write_entity_unchecked, ComponentGroup::as_sorted_pointers", "C04 C13", SH)
h("arch::push_dc", "Archetype::push_entity_unchecked, Archetype::write_entity_unchecked", "C04 C08", SH)
h("arch::push_full_ba arch::push_full_czw", "Archetype::push_entity_unchecked, Archetype::resize_if_necessary, Archetype::resize_capacity, archetype::reallocate",
  "C13 C18", SH)
h("arch::push_empty_ba arch::push_empty_czw", "Archetype::push_entity_unchecked, Archetype::resize_if_necessary", "C13", SH)
h("arch::reserve_ba", "Archetype::push_uninitialized_entity", "C05 C06 C13", SH)
h("arch::swap_drop_ba", "Archetype::swap_drop_unchecked, Archetype::swap_entities, Archetype::drop_entity", "C03", SH, thorough="arch::swap_drop_czw")
h("", "Archetype::swap_drop_unchecked, Archetype::drop_entity", "C08", SH, thorough="arch::swap_drop_dc")
h("arch::swap_remove_dc", "Archetype::swap_remove_unchecked, Archetype::read_components_exact_unchecked", "C07 C08", SH)
h("arch::swap_remove_ba", "Archetype::swap_remove_unchecked, Archetype::swap_entities, Archetype::read_components_exact_unchecked", "C07", SH,
  thorough="arch::swap_remove_czw")
h("arch::swap_to_last_ba", "Archetype::swap_to_last_unchecked, Archetype::swap_entities, Archetype::decrement_len_unchecked", "C03 C05 C06", SH,
  thorough="arch::swap_to_last_czw")
h("arch::resize_ba arch::resize_czw", "Archetype::resize_capacity, archetype::reallocate", "C13", SH)
h("arch::deallocate_ba arch::deallocate_czw", "Archetype::dealloc, archetype::deallocate, Archetype::drop", "C13 C08", SH)
h("arch::access_ba arch::access_czw", "Archetype::get_fuzzy_components_unchecked, Archetype::read_components_exact_unchecked, Archetype::entities, Archetype::is_full",
  "C19 C07 C20", SH)

TRUSTED = [
    "Verus 0.2026.09 / Z3, and the rewriting of function texts by driver/verus.py (listed in DESIGN.md)",
    "contracts of std and of the raw memory operations as stated in verus/shard.rs (alloc, dealloc, copy, swap, read, write, slices, binary search, Ord of derived types, byte conversions); allocation succeeds",
    "a component's bytes are its value; component types fit u16 sizes, have distinct identifiers and do not override the trait's constants; a call through a drop handler runs drop_handler_wrapper of that type",
    "borrowing one block apart from the others (at_mut, handles_of); empty slices of groups",
    "Kani 0.68 / CBMC 6.11 with kissat and CaDiCaL, for the harnesses; Verus does not rest on them",
]
NATIVE = "Concrete histories on the real code are the bounded stand-in for compositions no contract covers; they are not counted as proved."


def P(title, level, note, native_ms=6000, trusted=(), assumptions=()):
    return NS(title=title, level=level, note=note, native_ms=native_ms, trusted=list(trusted), assumptions=list(assumptions) + [NATIVE])


import json, os
TITLES = {}
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")) as f:
    for l in f:
        x = json.loads(l)
        TITLES[x["id"]] = x["title"]
NOTES = {
    "C01": ("proof", "Creation gives a valid handle of no live entity, for every state satisfying the registry's invariant; destruction advances the slot's version; over histories of any length a handle recurs only after its slot was vacated 256 times (lemma_handles_fresh). Assumptions: DESIGN.md."),
    "C02": ("proof", "Every operation taking a handle fails without effect, component given back, exactly when the handle's index and version match no live slot. Assumptions: DESIGN.md."),
    "C03": ("proof", "Frame conditions of all public operations: every other entity lives on with the same component map, including the one whose row fills a gap. Assumptions: DESIGN.md."),
    "C04": ("proof", "Creation stores exactly the components given, for one type and every tuple of 2 to 14; refused exactly for an invalid group or at a limit, everything given back. Assumptions: DESIGN.md."),
    "C05": ("proof", "Addition inserts exactly that component and keeps all others; fails exactly when present, at 14, or at the limit of sets, without effect. Assumptions: DESIGN.md."),
    "C06": ("proof", "Removal takes exactly that component and returns its value; fails exactly when absent or the only one (or at the limit of sets), without effect. Assumptions: DESIGN.md."),
    "C07": ("proof", "Removal by group succeeds exactly on equal sets, returns the stored values in the group's order, logs no drop; otherwise nothing changes. Assumptions: DESIGN.md."),
    "C08": ("proof", "Every contract states the log of dropped values: only destruction and dropping a block add to it, exactly the row(s) concerned. Assumed: drop glue of Vec and Registry, mem::forget, and that calling a drop handler calls the function it was taken from. Assumptions: DESIGN.md."),
    "C09": ("proof", "Invariant of the archetype registry: every set has one block, distinct sets distinct blocks, whatever the hashes; exact iterators yield that block's rows. Assumptions: DESIGN.md."),
    "C10": ("proof", "An iterator's yet-to-come list is the list of blocks whose sets include the group, each once; slices are the block's columns in the order of the group. Assumptions: DESIGN.md."),
    "C11": ("proof", "As matching iteration, restricted to blocks accepted by the closure on the block's own description; any closure that returns. Assumptions: DESIGN.md."),
    "C12": ("proof", "What an entity iterator has yet to yield is the list of live handles from its position on. Assumptions: DESIGN.md."),
    "C13": ("proof", "Bounds, alignment, initialisation, block and layout are preconditions of every raw memory operation and discharged at every use; growth keeps all cells and handles. Assumptions: DESIGN.md."),
    "C14": ("proof", "Group descriptors are sorted permutations for any list of 1 to 14 types; functions of groups pair each type with its own data for all 14 sizes. Assumptions: DESIGN.md."),
    "C15": ("proof", "Union, difference, membership, subset, disjointness exactly as for sets, on canonical descriptions. Assumptions: DESIGN.md."),
    "C16": ("proof", "All values, on the real bit operations, for either byte order. Assumptions: DESIGN.md."),
    "C17": ("proof", "Hash functions equal the recursive definition of FNV-1a and folding for every input; a set's identifier depends on the sorted identifiers only. Assumptions: DESIGN.md."),
    "C18": ("proof", "Exact failure conditions at both limits, no effect on failure; absence of overflow and of failing assertions in every extracted body. Assumed: allocation succeeds. Assumptions: DESIGN.md."),
    "C19": ("proof", "Presence and reads are given exactly by the entity's component map; references hold the current value. Assumptions: DESIGN.md."),
    "C20": ("proof", "Writes through mutable access change exactly that component of that entity; references handed out together are in different blocks. Assumed: the borrow of one block apart from the others (at_mut, handles_of). Assumptions: DESIGN.md."),
}
PROPERTIES = {}
for i in range(1, 21):
    k = "C%02d" % i
    PROPERTIES[k] = P(TITLES[k], *NOTES.get(k, ("proof", "see DESIGN.md")))
