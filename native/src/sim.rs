//! Model-based histories over the public API of the registry.
use crate::comp::*;
use crate::util::*;
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use shard_ecs::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type Row = BTreeMap<u16, u64>;

pub struct Sim {
    pub reg: Registry,
    pub model: BTreeMap<u32, Row>,
    pub alive: Vec<Entity>,
    pub dead: Vec<Entity>,
    /// The handles issued per slot, latest last.
    pub issued: HashMap<u32, Vec<u32>>,
    pub rng: Rng,
    pub next: u64,
    pub what: &'static str,
    pub trace: Option<Vec<String>>,
    pub ops: u64,
}

pub struct CompVt {
    pub name: &'static str,
    pub id: u16,
    pub drops: bool,
    pub add: fn(&mut Sim, Entity) -> R,
    pub remove: fn(&mut Sim, Entity) -> R,
    pub read: fn(&Registry, Entity) -> (bool, Option<u64>),
    pub write: fn(&mut Sim, Entity) -> R,
    pub has_desc: fn(&ArchetypeDescriptor) -> bool,
}
pub struct GroupVt {
    pub name: &'static str,
    pub ids: Vec<u16>,
    pub valid: bool,
    pub create: fn(&mut Sim) -> R,
    pub remove: fn(&mut Sim, Entity) -> R,
    pub read: fn(&mut Sim, Entity) -> R,
    pub write: fn(&mut Sim, Entity) -> R,
    pub iterate: fn(&mut Sim) -> R,
    pub iterate_mut: fn(&mut Sim) -> R,
    pub filtered: fn(&mut Sim) -> R,
    pub filtered_mut: fn(&mut Sim) -> R,
    pub exact: fn(&mut Sim) -> R,
    pub exact_mut: fn(&mut Sim) -> R,
}

fn describe(e: Entity) -> String {
    format!("{}v{}", e.index(), e.version())
}
fn same(a: Entity, b: Entity) -> bool {
    a.raw() == b.raw()
}

impl Sim {
    pub fn new(seed: u64, trace: bool) -> Sim {
        live_reset();
        Sim {
            reg: Registry::default(),
            model: BTreeMap::new(),
            alive: vec![],
            dead: vec![],
            issued: HashMap::new(),
            rng: Rng::new(seed),
            next: 1,
            what: "",
            trace: if trace { Some(vec![]) } else { None },
            ops: 0,
        }
    }
    pub fn log(&mut self, s: impl FnOnce() -> String) {
        self.ops += 1;
        if let Some(t) = &mut self.trace {
            let s = s();
            eprintln!("op {}: {}", t.len(), s);
            t.push(s);
        }
    }
    fn fresh(&mut self, n: usize) -> Vec<u64> {
        (0..n)
            .map(|_| {
                self.next += 1;
                self.next.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 8
            })
            .collect()
    }
    fn note_handle(&mut self, e: Entity) -> R {
        if !e.is_valid() {
            return fail(&["C01", "C18", "C16"], format!("create_entity returned the reserved handle {}", describe(e)));
        }
        if self.model.contains_key(&e.raw()) {
            return fail(&["C01"], format!("create_entity returned {} which is in use", describe(e)));
        }
        if self.alive.iter().any(|x| x.index() == e.index()) {
            return fail(&["C01"], format!("create_entity returned {}, its slot is in use", describe(e)));
        }
        let h = self.issued.entry(e.index()).or_default();
        let from = h.len().saturating_sub(255);
        if h[from..].contains(&e.raw()) {
            return fail(&["C01", "C02"], format!("create_entity returned {} which was issued before", describe(e)));
        }
        h.push(e.raw());
        Ok(())
    }
    fn bury(&mut self, e: Entity) {
        self.model.remove(&e.raw());
        self.alive.retain(|x| !same(*x, e));
        self.dead.push(e);
    }
    /// Whether a stale handle could legitimately be in use again (the slot was reused 256 times).
    fn stale(&self, e: Entity) -> bool {
        !self.model.contains_key(&e.raw())
    }
    /// The destructors run so far match the model.
    pub fn check_drops(&self, tags: &[&'static str]) -> R {
        let t: Vec<&str> = ["C08"].iter().chain(tags).copied().collect();
        if let Some(x) = bad_drops().first() {
            return observed(&t, format!("{}: a component was destroyed twice or never existed (instance {:#x})", self.what, x));
        }
        let want: usize = self
            .model
            .values()
            .map(|r| r.keys().filter(|k| is_dropping(**k)).count())
            .sum();
        if live_count() != want {
            return observed(
                &t,
                format!("{}: {} component instances exist, {} expected", self.what, live_count(), want),
            );
        }
        Ok(())
    }
    pub fn check_alloc(&self, tags: &[&'static str]) -> R {
        let t: Vec<&str> = ["C13"].iter().chain(tags).copied().collect();
        match take_alloc_error() {
            Some(m) => observed(&t, format!("{}: {}", self.what, m)),
            None => Ok(()),
        }
    }
    /// Compares an entity with the model.
    pub fn check_entity(&self, e: Entity, tags: &[&'static str]) -> R {
        let row = self.model.get(&e.raw());
        for c in comps() {
            let (has, got) = (c.read)(&self.reg, e);
            let want = row.and_then(|r| r.get(&c.id)).copied();
            if has != got.is_some() {
                return observed(
                    &["C19"],
                    format!("{}: has_component::<{}>({}) = {} but get_component is {:?}", self.what, c.name, describe(e), has, got),
                );
            }
            if got != want {
                let dropped = got.zip(want).map_or(false, |(g, w)| g == w ^ 0xBAD0_0000_0000);
                let mut t: Vec<&str> = tags.to_vec();
                if dropped {
                    t.push("C08");
                }
                if row.is_none() {
                    t.push("C02");
                }
                return observed(
                    &t,
                    format!("{}: component {} of {} reads {:?}, expected {:?}", self.what, c.name, describe(e), got, want),
                );
            }
        }
        Ok(())
    }
    /// After an operation on `subject`: everything else is untouched.
    pub fn check_all(&mut self, subject: Option<Entity>, op: &[&'static str]) -> R {
        let others: Vec<&str> = ["C03"].iter().chain(op).copied().collect();
        let list: Vec<Entity> = if self.alive.len() <= 24 {
            self.alive.clone()
        } else {
            let mut l: Vec<Entity> = (0..8).map(|_| self.alive[self.rng.below(self.alive.len())]).collect();
            l.push(*self.alive.last().unwrap());
            l.push(self.alive[0]);
            l
        };
        if let Some(e) = subject {
            self.check_entity(e, op)?;
        }
        for e in list {
            if subject.map_or(false, |s| same(s, e)) {
                continue;
            }
            self.check_entity(e, &others)?;
        }
        for _ in 0..2 {
            if !self.dead.is_empty() {
                let e = self.dead[self.rng.below(self.dead.len())];
                if self.stale(e) {
                    self.check_entity(e, &["C02", "C01"])?;
                }
            }
        }
        self.check_drops(op)?;
        self.check_alloc(op)
    }
    pub fn check_entities_iter(&mut self) -> R {
        self.what = "iter_entities";
        let mut seen = BTreeSet::new();
        let mut it = self.reg.iter_entities();
        let mut n = 0usize;
        while let Some(e) = it.next() {
            n += 1;
            if n > self.model.len() + 10 {
                return observed(&["C12"], "iter_entities yields more entities than there are".into());
            }
            if !seen.insert(e.raw()) {
                return observed(&["C12"], format!("iter_entities yields {} twice", describe(e)));
            }
            if !self.model.contains_key(&e.raw()) {
                return observed(&["C12"], format!("iter_entities yields {} which is not alive", describe(e)));
            }
        }
        if it.next().is_some() {
            return observed(&["C12"], "iter_entities yields an entity after it ended".into());
        }
        drop(it);
        if seen.len() != self.model.len() {
            return observed(&["C12"], format!("iter_entities yields {} of {} entities", seen.len(), self.model.len()));
        }
        Ok(())
    }
    pub fn pick(&mut self) -> Option<Entity> {
        if self.alive.is_empty() {
            return None;
        }
        let n = self.alive.len();
        Some(match self.rng.below(6) {
            0 => self.alive[n - 1],
            1 => self.alive[0],
            _ => self.alive[self.rng.below(n)],
        })
    }
    /// A handle that is not alive: destroyed, forged or reserved.
    pub fn pick_stale(&mut self) -> Option<Entity> {
        let e = match self.rng.below(8) {
            0 => Entity::INVALID,
            1 => unsafe { Entity::new_unchecked(self.issued.len() as u32, 0) },
            2 => unsafe { Entity::from_raw(self.rng.next() as u32) },
            3 if !self.alive.is_empty() => {
                let e = self.alive[self.rng.below(self.alive.len())];
                unsafe { Entity::new_unchecked(e.index(), e.version().wrapping_add(1 + self.rng.below(255) as u8)) }
            }
            4 if !self.dead.is_empty() => {
                // the version the slot will have next
                let e = self.dead[self.dead.len() - 1];
                unsafe { Entity::new_unchecked(e.index(), e.version().wrapping_add(1)) }
            }
            _ if !self.dead.is_empty() => self.dead[self.rng.below(self.dead.len())],
            _ => Entity::INVALID,
        };
        if self.stale(e) {
            Some(e)
        } else {
            None
        }
    }
    pub fn destroy(&mut self, e: Entity) -> R {
        self.what = "destroy_entity";
        self.log(|| format!("destroy_entity({})", describe(e)));
        let want = self.model.contains_key(&e.raw());
        let got = self.reg.destroy_entity(e);
        if want {
            self.bury(e);
        }
        if got != want {
            return fail(
                if want { &["C01", "C08", "C03"] } else { &["C02"] },
                format!("destroy_entity({}) returned {}, expected {}", describe(e), got, want),
            );
        }
        self.check_all(Some(e), if want { &["C03", "C02"] } else { &["C02", "C03"] })
    }
    /// Ends the history: everything is destroyed and all memory is given back.
    pub fn finish(mut self) -> R {
        self.what = "dropping the registry";
        self.log(|| "drop(registry)".into());
        let all = self.alive.clone();
        self.reg = Registry::default();
        self.model.clear();
        self.alive.clear();
        let _ = all;
        self.check_drops(&[])?;
        self.check_alloc(&[])
    }
}

// ---- one component ----
pub fn add<C: Comp>(s: &mut Sim, e: Entity) -> R {
    s.what = "add_component";
    let v = s.fresh(1)[0];
    s.log(|| format!("add_component({}, {}({:#x}))", describe(e), C::NAME, v));
    let id = C::ID.into_u16();
    let row = s.model.get(&e.raw()).cloned();
    let want = row.as_ref().map_or(false, |r| !r.contains_key(&id) && r.len() < 14);
    let tags: &[&str] = if row.is_some() { &["C05"] } else { &["C02", "C05"] };
    match s.reg.add_component(e, C::make(v)) {
        Ok(()) => {
            if !want {
                return fail(tags, format!("add_component({}, {}) succeeded, expected Err", describe(e), C::NAME));
            }
            s.model.get_mut(&e.raw()).unwrap().insert(id, C::norm(v));
        }
        Err(c) => {
            if want {
                return fail(&["C05", "C18"], format!("add_component({}, {}) failed", describe(e), C::NAME));
            }
            if c.val() != C::norm(v) {
                return fail(&["C05", "C08"], format!("add_component({}, {}) returned a different component: {:#x}, not {:#x}", describe(e), C::NAME, c.val(), C::norm(v)));
            }
        }
    }
    s.check_all(Some(e), if row.is_some() { &["C05"] } else { &["C05", "C02"] })
}
pub fn remove_component<C: Comp>(s: &mut Sim, e: Entity) -> R {
    s.what = "remove_component";
    s.log(|| format!("remove_component::<{}>({})", C::NAME, describe(e)));
    let id = C::ID.into_u16();
    let row = s.model.get(&e.raw()).cloned();
    let want = row.as_ref().and_then(|r| if r.len() > 1 { r.get(&id).copied() } else { None });
    let tags: &[&str] = if row.is_some() { &["C06"] } else { &["C02", "C06"] };
    match s.reg.remove_component::<C>(e) {
        Ok(c) => {
            let got = c.val();
            if want.is_none() {
                core::mem::forget(c);
                return fail(tags, format!("remove_component::<{}>({}) succeeded, expected Err", C::NAME, describe(e)));
            }
            if Some(got) != want {
                core::mem::forget(c);
                return fail(&["C06"], format!("remove_component::<{}>({}) returned {:#x}, expected {:#x}", C::NAME, describe(e), got, want.unwrap()));
            }
            s.model.get_mut(&e.raw()).unwrap().remove(&id);
        }
        Err(()) => {
            if want.is_some() {
                return fail(&["C06", "C18"], format!("remove_component::<{}>({}) failed", C::NAME, describe(e)));
            }
        }
    }
    s.check_all(Some(e), if row.is_some() { &["C06"] } else { &["C06", "C02"] })
}
pub fn read<C: Comp>(r: &Registry, e: Entity) -> (bool, Option<u64>) {
    (r.has_component::<C>(e), r.get_component::<C>(e).map(|c| c.val()))
}
pub fn write<C: Comp>(s: &mut Sim, e: Entity) -> R {
    s.what = "get_component_mut";
    let v = s.fresh(1)[0];
    s.log(|| format!("*get_component_mut::<{}>({}) = {:#x}", C::NAME, describe(e), v));
    let id = C::ID.into_u16();
    let want = s.model.get(&e.raw()).and_then(|r| r.get(&id)).copied();
    match s.reg.get_component_mut::<C>(e) {
        Some(c) => {
            let got = c.val();
            if Some(got) != want {
                return fail(&["C20", "C19"], format!("get_component_mut::<{}>({}) reads {:#x}, expected {:?}", C::NAME, describe(e), got, want));
            }
            c.set(v);
            s.model.get_mut(&e.raw()).unwrap().insert(id, C::norm(v));
        }
        None => {
            if want.is_some() {
                return fail(&["C20", "C19"], format!("get_component_mut::<{}>({}) is None", C::NAME, describe(e)));
            }
        }
    }
    s.check_all(Some(e), &["C20"])
}

// ---- groups ----
fn rows<G: TG>(v: &[u64]) -> Row {
    G::ids().into_iter().zip(G::norm(v)).collect()
}
fn pick_vals<G: TG>(r: &Row) -> Option<Vec<u64>> {
    G::ids().iter().map(|i| r.get(i).copied()).collect()
}
pub fn create<G: TG>(s: &mut Sim) -> R {
    s.what = "create_entity";
    let v = s.fresh(G::ids().len());
    s.log(|| format!("create_entity({} = {:x?})", G::name(), v));
    match s.reg.create_entity(G::build(&v)) {
        Ok(e) => {
            if !G::valid() {
                return fail(&["C04", "C14"], format!("create_entity with the invalid group {} succeeded", G::name()));
            }
            s.note_handle(e)?;
            s.model.insert(e.raw(), rows::<G>(&v));
            s.alive.push(e);
            s.check_all(Some(e), &["C04"])?;
            read_group::<G>(s, e)
        }
        Err(g) => {
            if G::valid() {
                return fail(&["C04", "C18", "C14"], format!("create_entity({}) failed", G::name()));
            }
            if g.vals() != G::norm(&v) {
                return fail(&["C04", "C18"], format!("create_entity({}) returned different components", G::name()));
            }
            drop(g);
            s.check_all(None, &["C04"])
        }
    }
}
pub fn remove_entity<G: TG>(s: &mut Sim, e: Entity) -> R {
    s.what = "remove_entity";
    s.log(|| format!("remove_entity::<{}>({})", G::name(), describe(e)));
    let row = s.model.get(&e.raw()).cloned();
    let mut want = row.clone().and_then(|r| if G::valid() && r.len() == G::ids().len() { pick_vals::<G>(&r) } else { None });
    if !G::valid() {
        want = None;
    }
    let got = s.reg.remove_entity::<G>(e);
    let tags: &[&str] = if row.is_some() { &["C07"] } else { &["C02", "C07"] };
    match (got, want) {
        (Some(g), Some(w)) => {
            if g.vals() != w {
                let m = format!("remove_entity::<{}>({}) returned {:x?}, expected {:x?}", G::name(), describe(e), g.vals(), w);
                core::mem::forget(g);
                return fail(&["C07"], m);
            }
            drop(g);
            s.bury(e);
        }
        (None, None) => {}
        (Some(g), None) => {
            core::mem::forget(g);
            return fail(tags, format!("remove_entity::<{}>({}) succeeded, expected None", G::name(), describe(e)));
        }
        (None, Some(_)) => return fail(tags, format!("remove_entity::<{}>({}) is None", G::name(), describe(e))),
    }
    s.check_all(Some(e), if row.is_some() { &["C07"] } else { &["C07", "C02"] })
}
pub fn read_group<G: TG>(s: &mut Sim, e: Entity) -> R {
    s.what = "get_components";
    s.log(|| format!("get_components::<{}>({})", G::name(), describe(e)));
    let want = if G::valid() { s.model.get(&e.raw()).and_then(pick_vals::<G>) } else { None };
    let has = s.reg.has_components::<G>(e);
    if has != want.is_some() {
        let t: &[&str] = if s.stale(e) { &["C19", "C02"] } else { &["C19"] };
        return observed(t, format!("has_components::<{}>({}) is {}", G::name(), describe(e), has));
    }
    let got = s.reg.get_components::<G>(e).map(|r| G::refs(&r));
    if got != want {
        return observed(&["C19", "C04"], format!("get_components::<{}>({}) reads {:x?}, expected {:x?}", G::name(), describe(e), got, want));
    }
    s.check_alloc(&["C19"])
}
pub fn write_group<G: TG>(s: &mut Sim, e: Entity) -> R {
    s.what = "get_components_mut";
    let v = s.fresh(G::ids().len());
    s.log(|| format!("*get_components_mut::<{}>({}) = {:x?}", G::name(), describe(e), v));
    let want = if G::valid() { s.model.get(&e.raw()).and_then(pick_vals::<G>) } else { None };
    match s.reg.get_components_mut::<G>(e) {
        Some(mut r) => {
            let got = G::mut_vals(&r);
            if Some(&got) != want.as_ref() {
                return fail(&["C20", "C19"], format!("get_components_mut::<{}>({}) reads {:x?}, expected {:x?}", G::name(), describe(e), got, want));
            }
            G::write(&mut r, &v);
            s.model.get_mut(&e.raw()).unwrap().extend(rows::<G>(&v));
        }
        None => {
            if want.is_some() {
                return fail(&["C20", "C19"], format!("get_components_mut::<{}>({}) is None", G::name(), describe(e)));
            }
        }
    }
    s.check_all(Some(e), &["C20"])
}

/// What a pass over the chunks saw: the entities and values per chunk.
type Chunks = Vec<(Vec<Entity>, Vec<Vec<u64>>)>;

fn check_chunks<G: TG>(s: &Sim, chunks: &Chunks, keep: &dyn Fn(&Row) -> bool, tags: &[&'static str]) -> R {
    let ids = G::ids();
    let mut seen = BTreeSet::new();
    let mut sets = BTreeSet::new();
    for (es, vals) in chunks {
        if es.len() != vals.len() {
            return observed(tags, format!("{}::<{}>: {} entities but {} rows", s.what, G::name(), es.len(), vals.len()));
        }
        let mut set: Option<Vec<u16>> = None;
        for (e, v) in es.iter().zip(vals) {
            let row = match s.model.get(&e.raw()) {
                Some(r) => r,
                None => return observed(tags, format!("{}::<{}>: yields {} which is not alive", s.what, G::name(), describe(*e))),
            };
            if !seen.insert(e.raw()) {
                return observed(tags, format!("{}::<{}>: yields {} twice", s.what, G::name(), describe(*e)));
            }
            if !ids.iter().all(|i| row.contains_key(i)) || !keep(row) {
                return observed(tags, format!("{}::<{}>: yields {} which does not match", s.what, G::name(), describe(*e)));
            }
            let want: Vec<u64> = pick_vals::<G>(row).unwrap();
            if *v != want {
                return observed(tags, format!("{}::<{}>: row of {} reads {:x?}, expected {:x?}", s.what, G::name(), describe(*e), v, want));
            }
            let k: Vec<u16> = row.keys().copied().collect();
            match &set {
                None => set = Some(k),
                Some(x) if *x != k => {
                    let mut t = tags.to_vec();
                    t.push("C09");
                    return observed(&t, format!("{}::<{}>: one chunk mixes entities with different components", s.what, G::name()));
                }
                _ => {}
            }
        }
        if let Some(k) = set {
            if !sets.insert(k) {
                let mut t = tags.to_vec();
                t.push("C09");
                return observed(&t, format!("{}::<{}>: two chunks have the same components", s.what, G::name()));
            }
        }
    }
    let want = s.model.values().filter(|r| G::valid() && ids.iter().all(|i| r.contains_key(i)) && keep(r)).count();
    if seen.len() != want {
        return observed(tags, format!("{}::<{}>: yields {} of {} entities", s.what, G::name(), seen.len(), want));
    }
    Ok(())
}
fn read_chunk<G: TG>(what: &'static str, es: &[Entity], r: &G::SliceRefTuple<'_>, tags: &[&'static str]) -> Result<(Vec<Entity>, Vec<Vec<u64>>), Fail> {
    let lens = G::slice_lens(r);
    if lens.iter().any(|l| *l != es.len()) {
        fail(tags, format!("{}::<{}>: slices of lengths {:?} for {} entities", what, G::name(), lens, es.len()))?;
    }
    Ok((es.to_vec(), (0..es.len()).map(|i| G::slice_row(r, i)).collect()))
}
fn read_chunk_mut<G: TG>(what: &'static str, es: &[Entity], r: &G::SliceMutRefTuple<'_>, tags: &[&'static str]) -> Result<(Vec<Entity>, Vec<Vec<u64>>), Fail> {
    let lens = G::mut_slice_lens(r);
    if lens.iter().any(|l| *l != es.len()) {
        fail(tags, format!("{}::<{}>: slices of lengths {:?} for {} entities", what, G::name(), lens, es.len()))?;
    }
    Ok((es.to_vec(), (0..es.len()).map(|i| G::mut_slice_row(r, i)).collect()))
}
fn too_many<G: TG>(s: &Sim, n: usize, tags: &[&'static str]) -> R {
    if n > 70_000 {
        return fail(tags, format!("{}::<{}> does not end", s.what, G::name()));
    }
    Ok(())
}
/// The rows of components-only iteration equal those of iteration with entities.
fn check_plain<G: TG>(s: &Sim, chunks: &Chunks, plain: &[Vec<Vec<u64>>], tags: &[&'static str]) -> R {
    let a: Vec<&Vec<Vec<u64>>> = chunks.iter().map(|c| &c.1).collect();
    let b: Vec<&Vec<Vec<u64>>> = plain.iter().collect();
    let (mut x, mut y) = (a.clone(), b.clone());
    x.retain(|c| !c.is_empty());
    y.retain(|c| !c.is_empty());
    x.sort();
    y.sort();
    if x != y {
        return observed(tags, format!("{}::<{}>: differs from the iteration with entities", s.what, G::name()));
    }
    Ok(())
}
pub fn iterate<G: TG>(s: &mut Sim) -> R {
    s.log(|| format!("iterate {}", G::name()));
    let tags = &["C10"];
    s.what = "iter_entity_components_matching";
    let mut chunks: Chunks = vec![];
    for (es, r) in s.reg.iter_entity_components_matching::<G>() {
        chunks.push(read_chunk::<G>(s.what, es, &r, tags)?);
        too_many::<G>(s, chunks.len(), tags)?;
    }
    check_chunks::<G>(s, &chunks, &|_| true, tags)?;
    s.what = "iter_components_matching";
    let mut plain = vec![];
    for r in s.reg.iter_components_matching::<G>() {
        let l = G::slice_lens(&r);
        if l.iter().any(|x| *x != l[0]) {
            return observed(tags, format!("{}::<{}>: slices of lengths {:?}", s.what, G::name(), l));
        }
        plain.push((0..l[0]).map(|i| G::slice_row(&r, i)).collect());
        too_many::<G>(s, plain.len(), tags)?;
    }
    check_plain::<G>(s, &chunks, &plain, tags)?;
    s.check_alloc(tags)
}
/// Writes new values through mutable chunks; returns what was read before.
fn rewrite<G: TG>(s: &mut Sim, news: &HashMap<u32, Vec<u64>>) {
    for (raw, v) in news {
        s.model.get_mut(raw).unwrap().extend(rows::<G>(v));
    }
}
fn value_for(salt: u64, e: Entity, n: usize) -> Vec<u64> {
    (0..n as u64)
        .map(|i| ((e.raw() as u64) << 5 ^ salt).wrapping_add(i).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 8)
        .collect()
}
pub fn iterate_mut<G: TG>(s: &mut Sim) -> R {
    s.log(|| format!("iterate mutably {}", G::name()));
    let tags = &["C10", "C20"];
    let n = G::ids().len();
    let salt = s.fresh(1)[0];
    s.what = "iter_entity_components_matching_mut";
    let what = s.what;
    let mut chunks: Chunks = vec![];
    let mut news = HashMap::new();
    let mut count = 0;
    for (es, mut r) in s.reg.iter_entity_components_matching_mut::<G>() {
        let c = read_chunk_mut::<G>(what, es, &r, tags)?;
        for (i, e) in es.iter().enumerate() {
            let v = value_for(salt, *e, n);
            G::write_row(&mut r, i, &v);
            news.insert(e.raw(), v);
        }
        chunks.push(c);
        count += 1;
        if count > 70_000 {
            return fail(tags, format!("{}::<{}> does not end", what, G::name()));
        }
    }
    check_chunks::<G>(s, &chunks, &|_| true, tags)?;
    rewrite::<G>(s, &news);
    s.what = "iter_components_matching_mut";
    let mut plain = vec![];
    for r in s.reg.iter_components_matching_mut::<G>() {
        let l = G::mut_slice_lens(&r);
        if l.iter().any(|x| *x != l[0]) {
            return fail(tags, format!("{}::<{}>: slices of lengths {:?}", what, G::name(), l));
        }
        plain.push((0..l[0]).map(|i| G::mut_slice_row(&r, i)).collect());
    }
    for c in &mut chunks {
        for (e, v) in c.0.iter().zip(&mut c.1) {
            *v = G::norm(&news[&e.raw()]);
        }
    }
    check_plain::<G>(s, &chunks, &plain, tags)?;
    s.check_all(None, tags)
}
fn any_filter(s: &mut Sim) -> (&'static CompVt, bool) {
    let c = comps();
    let i = s.rng.below(c.len());
    (&c[i], s.rng.below(2) == 0)
}
pub fn filtered<G: TG>(s: &mut Sim) -> R {
    let (c, pos) = any_filter(s);
    s.log(|| format!("iterate {} where has({}) = {}", G::name(), c.name, pos));
    let tags = &["C11"];
    s.what = "iter_filtered_entity_components_matching";
    let f = move |d: &ArchetypeDescriptor| (c.has_desc)(d) == pos;
    let keep = move |r: &Row| r.contains_key(&c.id) == pos;
    let mut chunks: Chunks = vec![];
    for (es, r) in s.reg.iter_filtered_entity_components_matching::<G, _>(f) {
        chunks.push(read_chunk::<G>(s.what, es, &r, tags)?);
        too_many::<G>(s, chunks.len(), tags)?;
    }
    check_chunks::<G>(s, &chunks, &keep, tags)?;
    s.what = "iter_filtered_components_matching";
    let mut plain = vec![];
    for r in s.reg.iter_filtered_components_matching::<G, _>(f) {
        let l = G::slice_lens(&r);
        if l.iter().any(|x| *x != l[0]) {
            return observed(tags, format!("{}::<{}>: slices of lengths {:?}", s.what, G::name(), l));
        }
        plain.push((0..l[0]).map(|i| G::slice_row(&r, i)).collect());
        too_many::<G>(s, plain.len(), tags)?;
    }
    check_plain::<G>(s, &chunks, &plain, tags)?;
    s.check_alloc(tags)
}
pub fn filtered_mut<G: TG>(s: &mut Sim) -> R {
    let (c, pos) = any_filter(s);
    s.log(|| format!("iterate mutably {} where has({}) = {}", G::name(), c.name, pos));
    let tags = &["C11", "C20"];
    let n = G::ids().len();
    let salt = s.fresh(1)[0];
    s.what = "iter_filtered_entity_components_matching_mut";
    let what = s.what;
    let f = move |d: &ArchetypeDescriptor| (c.has_desc)(d) == pos;
    let keep = move |r: &Row| r.contains_key(&c.id) == pos;
    let mut chunks: Chunks = vec![];
    let mut news = HashMap::new();
    for (es, mut r) in s.reg.iter_filtered_entity_components_matching_mut::<G, _>(f) {
        let x = read_chunk_mut::<G>(what, es, &r, tags)?;
        for (i, e) in es.iter().enumerate() {
            let v = value_for(salt, *e, n);
            G::write_row(&mut r, i, &v);
            news.insert(e.raw(), v);
        }
        chunks.push(x);
        if chunks.len() > 70_000 {
            return fail(tags, format!("{}::<{}> does not end", what, G::name()));
        }
    }
    check_chunks::<G>(s, &chunks, &keep, tags)?;
    rewrite::<G>(s, &news);
    s.what = "iter_filtered_components_matching_mut";
    let mut plain = vec![];
    for r in s.reg.iter_filtered_components_matching_mut::<G, _>(f) {
        let l = G::mut_slice_lens(&r);
        if l.iter().any(|x| *x != l[0]) {
            return fail(tags, format!("{}::<{}>: slices of lengths {:?}", what, G::name(), l));
        }
        plain.push((0..l[0]).map(|i| G::mut_slice_row(&r, i)).collect());
    }
    for c in &mut chunks {
        for (e, v) in c.0.iter().zip(&mut c.1) {
            *v = G::norm(&news[&e.raw()]);
        }
    }
    check_plain::<G>(s, &chunks, &plain, tags)?;
    s.check_all(None, tags)
}
pub fn exact<G: TG>(s: &mut Sim) -> R {
    s.log(|| format!("iterate exactly {}", G::name()));
    let tags = &["C09"];
    s.what = "iter_entity_components_exact";
    let n = G::ids().len();
    let keep = move |r: &Row| r.len() == n;
    let (es, r) = s.reg.iter_entity_components_exact::<G>();
    let chunk = read_chunk::<G>(s.what, es, &r, tags)?;
    let chunks = vec![chunk];
    check_chunks::<G>(s, &chunks, &keep, tags)?;
    s.what = "iter_components_exact";
    let r = s.reg.iter_components_exact::<G>();
    let l = G::slice_lens(&r);
    if l.iter().any(|x| *x != chunks[0].0.len()) {
        return observed(tags, format!("{}::<{}>: slices of lengths {:?} for {} entities", s.what, G::name(), l, chunks[0].0.len()));
    }
    let plain: Vec<Vec<Vec<u64>>> = vec![(0..l[0]).map(|i| G::slice_row(&r, i)).collect()];
    check_plain::<G>(s, &chunks, &plain, tags)?;
    s.check_alloc(tags)
}
pub fn exact_mut<G: TG>(s: &mut Sim) -> R {
    s.log(|| format!("iterate exactly, mutably {}", G::name()));
    let tags = &["C09", "C20"];
    s.what = "iter_entity_components_exact_mut";
    let what = s.what;
    let n = G::ids().len();
    let keep = move |r: &Row| r.len() == n;
    let salt = s.fresh(1)[0];
    let mut news = HashMap::new();
    let chunk = {
        let (es, mut r) = s.reg.iter_entity_components_exact_mut::<G>();
        let chunk = read_chunk_mut::<G>(what, es, &r, tags)?;
        for (i, e) in es.iter().enumerate() {
            let v = value_for(salt, *e, n);
            G::write_row(&mut r, i, &v);
            news.insert(e.raw(), v);
        }
        chunk
    };
    let mut chunks = vec![chunk];
    check_chunks::<G>(s, &chunks, &keep, tags)?;
    rewrite::<G>(s, &news);
    for c in &mut chunks {
        for (e, v) in c.0.iter().zip(&mut c.1) {
            *v = G::norm(&news[&e.raw()]);
        }
    }
    s.what = "iter_components_exact_mut";
    let plain: Vec<Vec<Vec<u64>>> = {
        let r = s.reg.iter_components_exact_mut::<G>();
        let l = G::mut_slice_lens(&r);
        if l.iter().any(|x| *x != chunks[0].0.len()) {
            return fail(tags, format!("{}::<{}>: slices of lengths {:?} for {} entities", what, G::name(), l, chunks[0].0.len()));
        }
        vec![(0..l[0]).map(|i| G::mut_slice_row(&r, i)).collect()]
    };
    check_plain::<G>(s, &chunks, &plain, tags)?;
    s.check_all(None, tags)
}

pub fn comp_vt<C: Comp>() -> CompVt {
    CompVt {
        name: C::NAME,
        id: C::ID.into_u16(),
        drops: C::DROPS,
        add: add::<C>,
        remove: remove_component::<C>,
        read: read::<C>,
        write: write::<C>,
        has_desc: |d| d.has_component::<C>(),
    }
}

pub fn group_vt<G: TG>() -> GroupVt {
    GroupVt {
        name: G::name(),
        ids: G::ids(),
        valid: G::valid(),
        create: create::<G>,
        remove: remove_entity::<G>,
        read: read_group::<G>,
        write: write_group::<G>,
        iterate: iterate::<G>,
        iterate_mut: iterate_mut::<G>,
        filtered: filtered::<G>,
        filtered_mut: filtered_mut::<G>,
        exact: exact::<G>,
        exact_mut: exact_mut::<G>,
    }
}
