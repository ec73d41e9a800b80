//! Identifiers as bytes and as sets of one type.
use crate::common::*;
use crate::desc::{any_component, id, same};
use core::sync::atomic::{AtomicU32, Ordering};

/// component_type_id.rs: ComponentTypeId::to_ne_bytes
#[kani::proof]
fn bytes() {
    let v: u16 = kani::any();
    let b = ComponentTypeId::from_u16(v).to_ne_bytes();
    assert!(b == v.to_ne_bytes(), "the bytes of an identifier are those of its number");
    assert!(ComponentTypeId::from_u16(v).into_u16() == v);
}

/// component_descriptor.rs: Into<ArchetypeDescriptor>; component_type_id.rs: From<ComponentTypeId> for ArchetypeId
#[kani::proof]
fn single() {
    let c = any_component();
    let d: ArchetypeDescriptor = (&c).into();
    let e: ArchetypeDescriptor = c.clone().into();
    let i: ArchetypeId = c.component_type_id.into();
    assert!(i.into_u32() == id(&c) as u32);
    assert!(d.is_valid() && d.len() == 1 && d.archetype_id() == i && same(&d.components()[0], &c), "the set of one type");
    assert!(e.is_valid() && e.len() == 1 && e.archetype_id() == i && same(&e.components()[0], &c), "the set of one type");
    assert!(ArchetypeDescriptor::compute_archetype_id(d.components()) == i, "the identifier is the one computed");
}

static GONE: AtomicU32 = AtomicU32::new(0);
/// A value whose destructor leaves its bit in GONE.
struct Bit(u8);
impl Component for Bit {
    const NAME: &'static str = "Bit";
    const ID: ComponentTypeId = ComponentTypeId::from_u16(77);
}
impl Drop for Bit {
    fn drop(&mut self) {
        let m = 1u32 << self.0;
        assert!(GONE.load(Ordering::Relaxed) & m == 0, "no destructor runs twice");
        GONE.fetch_or(m, Ordering::Relaxed);
    }
}

/// component_descriptor.rs: ComponentDescriptor::drop_handler_wrapper, define_component_descriptor!
#[kani::proof]
#[kani::unwind(6)]
fn destructor() {
    let mut v: [core::mem::ManuallyDrop<Bit>; 4] = core::array::from_fn(|i| core::mem::ManuallyDrop::new(Bit(i as u8)));
    let n: usize = kani::any();
    kani::assume(n <= 4);
    let d = &<Bit as Component>::DESCRIPTOR;
    assert!(d.size as usize == core::mem::size_of::<Bit>() && d.align as usize == core::mem::align_of::<Bit>() && d.component_type_id == Bit::ID);
    unsafe { (d.fns.drop_handler)(v.as_mut_ptr() as *mut u8, n) };
    assert!(GONE.load(Ordering::Relaxed) == (1u32 << n) - 1, "exactly the first n values are destroyed");
}
