//! Component types, groups and ghost state shared by the harnesses.
pub use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
pub use shard_ecs::archetype_registry::ArchetypeRegistry;
pub use shard_ecs::component_group::ComponentGroup;
pub use shard_ecs::*;

pub const MAXE: u32 = 16_777_215;

macro_rules! component {
    ($name:ident, $inner:ty, $id:expr) => {
        #[derive(Clone, Copy, PartialEq, Eq)]
        #[repr(C)]
        pub struct $name(pub $inner);
        impl Component for $name {
            const NAME: &'static str = stringify!($name);
            const ID: ComponentTypeId = ComponentTypeId::from_u16($id);
        }
        impl kani::Arbitrary for $name {
            fn any() -> Self {
                $name(kani::any())
            }
        }
    };
}
component!(CA, u32, 10);
component!(CB, u64, 20);
component!(CC, u8, 30);
component!(CZ, (), 25); // zero-sized, sorts between CB and CC
component!(CE, u16, 40);
// Identifiers descending with the type number, so that tuples in type order are reverse-sorted.
component!(T1, u8, 140);
component!(T2, u8, 130);
component!(T3, u8, 120);
component!(T4, u8, 110);
component!(T5, u8, 100);
component!(T6, u8, 90);
component!(T7, u8, 80);
component!(T8, u8, 70);
component!(T9, u8, 60);
component!(T10, u8, 50);
component!(T11, u8, 45);
component!(T12, u8, 44);
component!(T13, u8, 43);
component!(T14, u8, 42);

/// Over-aligned component: 16 bytes aligned to 16.
#[derive(Clone, Copy, PartialEq, Eq)]
#[repr(C, align(16))]
pub struct CW(pub u32);
impl Component for CW {
    const NAME: &'static str = "CW";
    const ID: ComponentTypeId = ComponentTypeId::from_u16(15);
}
impl kani::Arbitrary for CW {
    fn any() -> Self {
        CW(kani::any())
    }
}

/// Ghost state recording the destructor calls of `CD`.
pub static mut DROPS: u32 = 0;
pub static mut LAST_DROPPED: u32 = 0;

/// A component with a destructor.
#[derive(PartialEq, Eq)]
#[repr(C)]
pub struct CD(pub u32);
impl Component for CD {
    const NAME: &'static str = "CD";
    const ID: ComponentTypeId = ComponentTypeId::from_u16(12);
}
impl Drop for CD {
    fn drop(&mut self) {
        unsafe {
            DROPS += 1;
            LAST_DROPPED = self.0;
        }
    }
}
impl kani::Arbitrary for CD {
    fn any() -> Self {
        CD(kani::any())
    }
}
pub fn drops() -> u32 {
    unsafe { DROPS }
}
pub fn last_dropped() -> u32 {
    unsafe { LAST_DROPPED }
}

pub fn any_entity() -> Entity {
    unsafe { Entity::from_raw(kani::any()) }
}
