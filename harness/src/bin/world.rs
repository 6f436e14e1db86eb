//! C22–C24, C27: monitors of whole worlds (and C08, C09, C11 for what happens through a world).
use std::{
    any::Any,
    collections::{BTreeMap, BTreeSet},
    sync::OnceLock,
};

use gmon::{catch, ensure, ensure_eq, ledger::INJECTED, Case, Ledger, Opts, Res, Rng, Runner, Tok};
use goggles::{
    rayon, AnyCloneComponentSet, AnyComponentSet, Component, DenseVecStorage, Entities, Entity, Flagged, HashMapStorage,
    IntoJoinExt, MaskedStorage, ReadComponent, TrackedStorage, VecStorage, World, WriteComponent,
};

mod parallel {
    pub use super::*;
    include!("../inc/world_parallel.rs");
}

mod types {
    use super::*;
    include!("../inc/world_types.rs");
}

mod sched {
    pub use super::*;
    include!("../inc/world_sched.rs");
}

// ---------------------------------------------------------------------------------------------
// Components: numbered values in every kind of storage

pub trait Comp: Component + Clone + Default + Send + Sync + 'static {
    fn new(t: Tok) -> Self;
    fn tok(&self) -> &Tok;
    fn tok_mut(&mut self) -> &mut Tok;
    fn into_tok(self) -> Tok;
}

/// More than just the value, so that the layout differs between the types.
#[derive(Debug, Clone)]
pub struct C<const N: usize>(Tok, [u8; N]);

impl<const N: usize> Default for C<N> {
    fn default() -> Self {
        C(Tok::default(), [0; N])
    }
}

macro_rules! components {
    ($($n:literal => $s:ty;)*) => {
        $(impl Component for C<$n> {
            type Storage = $s;
        }
        impl Comp for C<$n> {
            fn new(t: Tok) -> Self {
                C(t, [0; $n])
            }
            fn tok(&self) -> &Tok {
                &self.0
            }
            fn tok_mut(&mut self) -> &mut Tok {
                &mut self.0
            }
            fn into_tok(self) -> Tok {
                self.0
            }
        })*
    };
}

components! {
    0 => VecStorage<Self>;
    1 => DenseVecStorage<Self>;
    2 => HashMapStorage<Self>;
    3 => Flagged<VecStorage<Self>>;
    4 => Flagged<DenseVecStorage<Self>>;
    5 => Flagged<HashMapStorage<Self>>;
}
pub const K: usize = 6;
pub const TRACKED: usize = 3;
pub const DENSE: usize = 1;

#[macro_export]
macro_rules! for_comp {
    ($k:expr, $t:ident => $e:expr) => {
        match $k {
            0 => { type $t = C<0>; $e }
            1 => { type $t = C<1>; $e }
            2 => { type $t = C<2>; $e }
            k => for_tracked!(k, $t => $e),
        }
    };
}

#[macro_export]
macro_rules! for_tracked {
    ($k:expr, $t:ident => $e:expr) => {
        match $k {
            3 => { type $t = C<3>; $e }
            4 => { type $t = C<4>; $e }
            5 => { type $t = C<5>; $e }
            _ => unreachable!(),
        }
    };
}

/// Some way of reading component `$T`.
macro_rules! reading {
    ($w:expr, $how:expr, $T:ty, $a:ident => $e:expr) => {
        match $how % 6 {
            0 => { let $a = $w.read_component::<$T>(); $e }
            1 => { let $a = $w.fetch::<ReadComponent<$T>>(); $e }
            2 => { let $a = $w.write_component::<$T>(); $e }
            3 => { let $a = $w.fetch::<WriteComponent<$T>>(); $e }
            4 => { let (_e, $a) = $w.fetch::<(Entities, ReadComponent<$T>)>(); $e }
            _ => { let $a = $w.get_component_mut::<$T>(); $e }
        }
    };
}

/// Some way of writing component `$T`.
macro_rules! writing {
    ($w:expr, $how:expr, $T:ty, $a:ident => $e:expr) => {
        match $how % 4 {
            0 => { let mut $a = $w.write_component::<$T>(); $e }
            1 => { let mut $a = $w.fetch::<WriteComponent<$T>>(); $e }
            2 => { let (_e, mut $a) = $w.fetch::<(Entities, WriteComponent<$T>)>(); $e }
            _ => { let mut $a = $w.get_component_mut::<$T>(); $e }
        }
    };
}

// ---------------------------------------------------------------------------------------------
// Model

type Val = (u64, u64);

#[derive(Clone, Debug, Default)]
struct Col {
    vals: BTreeMap<u32, Val>,
    tracking: bool,
    modified: BTreeSet<u32>,
}

impl Col {
    fn touch(&mut self, i: u32) {
        if self.tracking {
            self.modified.insert(i);
        }
    }
}

/// What is where.
#[derive(Clone, Debug, Default)]
struct Model {
    live: BTreeMap<u32, Entity>,
    pending: BTreeSet<Entity>,
    cols: Vec<Option<Col>>,
}

impl Model {
    fn alive(&self, e: Entity) -> bool {
        self.live.get(&e.index()) == Some(&e)
    }
    fn kill(&mut self, e: Entity) {
        self.live.remove(&e.index());
        self.pending.remove(&e);
        for c in self.cols.iter_mut().flatten() {
            if c.vals.remove(&e.index()).is_some() {
                c.touch(e.index());
            }
        }
    }
}

/// A set of components, and what is in it.
enum Set {
    Any(AnyComponentSet),
    Clone(AnyCloneComponentSet),
}

struct Sim {
    world: World,
    other: World,
    m: Model,
    handles: Vec<Entity>,
    known: std::collections::HashSet<Entity>,
    foreign: Vec<Entity>,
    sets: Vec<(Set, BTreeMap<usize, Val>)>,
    /// Storages that were handed back, with what they contained.
    old: Vec<(Box<dyn Any>, usize, Col)>,
    /// Values that were handed back.
    kept: Vec<Tok>,
    ledger: Ledger,
    cap: usize,
    focus: Focus,
    how: u64,
    /// A guard of this component has been leaked.
    leaked: BTreeSet<usize>,
    /// Values that the standard library's hash map leaked, because another destructor panicked.
    lost: BTreeSet<u64>,
    /// A set is being put on a handle that is not alive, which drops it.
    onto_dead: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Focus {
    Lifetimes,
    Handles,
    Sets,
    Drops,
    Panics,
    Tracking,
}

fn read_col<T: Comp>(s: &MaskedStorage<T::Storage>, cap: u32) -> Res<BTreeMap<u32, Val>> {
    let mut got = BTreeMap::new();
    for i in goggles::hibitset::BitSetLike::iter(s.mask()) {
        let v: &T = s.get(i).ok_or_else(|| format!("index {i} is in the mask, but there is nothing"))?;
        ensure!(v.tok().sane(), "what is at {i} is not a value");
        got.insert(i, (v.tok().id, v.tok().val));
    }
    for i in 0..cap {
        ensure!(s.contains(i) == got.contains_key(&i), "contains({i}) and the mask disagree");
    }
    Ok(got)
}

fn read_modified<T: Comp>(s: &MaskedStorage<T::Storage>) -> BTreeSet<u32>
where
    T::Storage: TrackedStorage,
{
    goggles::hibitset::BitSetLike::iter(s.modified_indexes()).collect()
}

impl Sim {
    fn new(c: &mut Case, focus: Focus, huge: bool) -> Res<Sim> {
        let ledger = Ledger::new();
        let mut s = Sim {
            world: if c.rng.bool() { World::new() } else { World::default() },
            other: World::new(),
            m: Model {
                cols: vec![None; K],
                ..Model::default()
            },
            handles: Vec::new(),
            known: Default::default(),
            foreign: Vec::new(),
            sets: Vec::new(),
            old: Vec::new(),
            kept: Vec::new(),
            ledger,
            cap: match c.rng.below(200) {
                _ if huge => c.rng.range(5001, 150_000) as usize,
                0..=79 => 4,
                80..=159 => 12,
                160..=179 => 70,
                180..=197 => 300,
                _ => 5000,
            },
            focus,
            how: 0,
            leaked: BTreeSet::new(),
            lost: BTreeSet::new(),
            onto_dead: false,
        };
        for _ in 0..c.rng.below(12) {
            let e = s.other.create_entity();
            s.foreign.push(e);
            if c.rng.bool() {
                let _ = s.other.delete_entity(e);
            }
        }
        for k in 0..K {
            if c.rng.chance(5, 6) {
                s.register(k)?;
                if k >= TRACKED && c.rng.chance(2, 3) {
                    for_tracked!(k, T => s.world.get_component_mut::<T>().set_track_modified(true));
                    s.m.cols[k].as_mut().unwrap().tracking = true;
                }
            }
        }
        if c.rng.chance(1, 4) {
            // Start with reused indexes.
            let v: Vec<Entity> = (0..s.cap).map(|_| s.world.create_entity()).collect();
            for e in v {
                s.world.delete_entity(e).map_err(|e| e.to_string())?;
                s.handles.push(e);
                s.known.insert(e);
            }
        }
        Ok(s)
    }

    fn how(&mut self, rng: &mut Rng) -> u64 {
        self.how = rng.below(1 << 20);
        self.how
    }

    fn register(&mut self, k: usize) -> Res {
        let old: Option<Box<dyn Any>> = for_comp!(k, T => self.world.insert_component::<T>().map(|s| Box::new(s) as Box<dyn Any>));
        self.handed_back(k, old, Some(Col::default()))
    }

    fn unregister(&mut self, k: usize) -> Res {
        let old: Option<Box<dyn Any>> = for_comp!(k, T => self.world.remove_component::<T>().map(|s| Box::new(s) as Box<dyn Any>));
        self.handed_back(k, old, None)
    }

    fn handed_back(&mut self, k: usize, old: Option<Box<dyn Any>>, new: Option<Col>) -> Res {
        let was = std::mem::replace(&mut self.m.cols[k], new);
        ensure_eq!(old.is_some(), was.is_some(), "whether a storage of component {k} was handed back");
        if let (Some(b), Some(col)) = (old, was) {
            self.old.push((b, k, col));
            self.check_old(self.old.len() - 1)?;
        }
        Ok(())
    }

    fn check_old(&self, n: usize) -> Res {
        let (b, k, col) = &self.old[n];
        for_comp!(*k, T => {
            let s = b.downcast_ref::<goggles::world_common::ComponentStorage<T>>().unwrap();
            ensure_eq!(read_col::<T>(s, 0)?, col.vals, "contents of a storage of component {k} that was handed back");
        });
        Ok(())
    }

    fn any_handle(&self, rng: &mut Rng) -> Option<Entity> {
        let v = match rng.below(12) {
            0 if !self.foreign.is_empty() => &self.foreign,
            1..=5 if !self.m.live.is_empty() => {
                let n = rng.idx(self.m.live.len());
                return self.m.live.values().nth(n).copied();
            }
            _ => &self.handles,
        };
        if v.is_empty() {
            return None;
        }
        // Mostly recent ones, as these share their index with a live entity.
        let from = if rng.bool() { v.len().saturating_sub(8) } else { 0 };
        Some(v[from + rng.idx(v.len() - from)])
    }

    fn created(&mut self, e: Entity) -> Res {
        let old = self.m.live.insert(e.index(), e);
        ensure!(old.is_none(), "{e:?} was created while {old:?} is alive");
        ensure!(self.known.insert(e), "{e:?} was created a second time");
        for k in 0..K {
            if self.m.cols[k].is_some() {
                for_comp!(k, T => {
                    let s = self.world.get_component_mut::<T>();
                    ensure!(
                        s.get(e).is_none() && !s.contains(e) && !s.storage().contains(e.index()),
                        "the new {e:?} has component {k} from the start"
                    );
                });
            }
        }
        self.handles.push(e);
        Ok(())
    }

    /// Every value that must be alive.
    fn reachable(&self) -> BTreeSet<u64> {
        let mut v: BTreeSet<u64> = BTreeSet::new();
        for c in self.m.cols.iter().flatten().chain(self.old.iter().map(|o| &o.2)) {
            v.extend(c.vals.values().map(|v| v.0));
        }
        for s in &self.sets {
            v.extend(s.1.values().map(|v| v.0));
        }
        v.extend(self.kept.iter().map(|t| t.id));
        v.extend(&self.lost);
        v
    }

    fn check_values(&self, when: &str) -> Res {
        self.ledger.expect_live(&self.reachable(), when)
    }

    /// Everything that can be seen against the model.
    fn compare(&mut self, when: &str) -> Res {
        let live: BTreeMap<u32, Entity> = {
            let e = self.world.entities();
            (&e).join().map(|e| (e.index(), e)).collect()
        };
        ensure_eq!(live, self.m.live, "{when}: live entities");
        for k in 0..K {
            let reg = for_comp!(k, T => self.world.contains_component::<T>());
            ensure_eq!(reg, self.m.cols[k].is_some(), "{when}: whether component {k} is registered");
            let Some(col) = &self.m.cols[k] else { continue };
            for_comp!(k, T => {
                // (not by borrowing, as a leaked guard may be in the way)
                let s = self.world.get_component_mut::<T>();
                let got = read_col::<T>(s.storage(), 24)?;
                for (i, v) in &got {
                    ensure!(
                        self.m.live.contains_key(i),
                        "{when}: component {k} (value {v:?}) is still there at index {i}, where no entity is alive"
                    );
                }
                ensure_eq!(got, col.vals, "{when}: component {k}");
                let mask: BTreeSet<u32> = goggles::hibitset::BitSetLike::iter(s.mask()).collect();
                ensure!(mask.iter().eq(col.vals.keys()), "{when}: mask of component {k}: {mask:?}, expected {:?}", col.vals.keys());
                for e in self.m.live.values() {
                    let want = col.vals.get(&e.index()).copied();
                    ensure_eq!(s.get(*e).map(|v| (v.tok().id, v.tok().val)), want, "{when}: component {k} of {e:?}");
                    ensure_eq!(s.contains(*e), want.is_some(), "{when}: contains({e:?}) of component {k}");
                }
                for e in self.handles.iter().rev().take(24).chain(&self.foreign) {
                    if !self.m.alive(*e) {
                        ensure!(
                            s.get(*e).is_none() && !s.contains(*e),
                            "{when}: component {k} was reached through the dead {e:?}"
                        );
                    }
                }
            });
            if k >= TRACKED {
                for_tracked!(k, T => {
                    let s = self.world.get_component_mut::<T>();
                    ensure_eq!(s.tracking_modified(), col.tracking, "{when}: whether component {k} is tracked");
                    ensure_eq!(read_modified::<T>(s.storage()), col.modified, "{when}: modified indexes of component {k}");
                    let bits: BTreeSet<u32> = goggles::hibitset::BitSetLike::iter(s.modified_indexes()).collect();
                    ensure_eq!(bits, col.modified, "{when}: modified indexes of component {k}, by the access");
                });
            }
        }
        self.check_values(when)
    }

    fn create(&mut self, c: &mut Case) -> Res {
        let n = if c.rng.chance(1, 8) { c.rng.range(2, 20) } else { 1 };
        for _ in 0..n {
            if self.m.live.len() >= self.cap {
                break;
            }
            let atomic = c.rng.chance(2, 5);
            c.op(if atomic { "create atomically" } else { "create" }, 0, 0);
            let e = if atomic { self.world.entities().create() } else { self.world.create_entity() };
            self.created(e)?;
        }
        Ok(())
    }

    fn delete(&mut self, c: &mut Case) -> Res {
        let Some(e) = self.any_handle(&mut c.rng) else { return Ok(()) };
        let alive = self.m.alive(e);
        c.op("delete", e.index() as u64, alive as u64);
        ensure_eq!(self.world.delete_entity(e).is_ok(), alive, "delete_entity({e:?}), alive: {alive}");
        if alive {
            self.m.kill(e);
            c.count("entities deleted", 1);
        }
        Ok(())
    }

    fn request(&mut self, c: &mut Case) -> Res {
        for _ in 0..if c.rng.chance(1, 6) { c.rng.range(2, 12) } else { 1 } {
            let Some(e) = self.any_handle(&mut c.rng) else { return Ok(()) };
            let alive = self.m.alive(e);
            c.op("request deletion", e.index() as u64, alive as u64);
            ensure_eq!(self.world.entities().delete(e).is_ok(), alive, "entities().delete({e:?}), alive: {alive}");
            if alive {
                self.m.pending.insert(e);
            }
        }
        Ok(())
    }

    fn merge(&mut self, c: &mut Case) -> Res {
        c.op("merge", self.m.pending.len() as u64, 0);
        self.world.merge();
        for e in std::mem::take(&mut self.m.pending) {
            self.m.kill(e);
            c.count("entities deleted by merge", 1);
        }
        Ok(())
    }

    /// Many entities at once.
    fn bulk(&mut self, c: &mut Case) -> Res {
        let live: Vec<Entity> = self.m.live.values().copied().collect();
        // All, all but one, a range, every n-th, or half of them.
        let (how, at) = (c.rng.below(5), c.rng.idx(live.len().max(1)));
        let len = c.rng.idx(live.len() + 1);
        let n = c.rng.range(2, 64) as usize;
        let mut some: Vec<Entity> = match how {
            0 => live.clone(),
            1 => live.iter().copied().enumerate().filter(|(x, _)| *x != at).map(|x| x.1).collect(),
            2 => live[at.min(live.len())..(at + len).min(live.len())].to_vec(),
            3 => live.iter().copied().step_by(n).collect(),
            _ => live.iter().copied().filter(|_| c.rng.bool()).collect(),
        };
        c.count("bulk operations", 1);
        c.max("entities in a bulk operation", some.len() as u64);
        match c.rng.below(8) {
            0..=1 => {
                // The world is filled up.
                let atomic = c.rng.bool();
                let room = self.cap.saturating_sub(live.len());
                for _ in 0..room {
                    c.op(if atomic { "create atomically" } else { "create" }, 0, 0);
                    let e = if atomic { self.world.entities().create() } else { self.world.create_entity() };
                    self.created(e)?;
                }
            }
            2..=4 => {
                let k = c.rng.idx(K);
                if self.m.cols[k].is_none() || self.leaked.contains(&k) {
                    return Ok(());
                }
                for e in some {
                    c.op("insert", e.index() as u64, k as u64);
                    for_comp!(k, T => {
                        let t = self.ledger.tok();
                        let now = (t.id, t.val);
                        let col = self.m.cols[k].as_mut().unwrap();
                        let was = col.vals.insert(e.index(), now);
                        col.touch(e.index());
                        let got = self.world.write_component::<T>().insert(e, T::new(t));
                        let Ok(got) = got else { return Err(format!("insert({e:?}) of component {k} was refused although it is alive")) };
                        let got = got.map(T::into_tok);
                        ensure_eq!(got.as_ref().map(|t| (t.id, t.val)), was, "what insert({e:?}) of component {k} replaced");
                        if c.rng.bool() {
                            self.kept.extend(got);
                        }
                    });
                }
            }
            5..=6 => {
                if c.rng.bool() {
                    some.reverse();
                }
                for e in some {
                    c.op("request deletion", e.index() as u64, 1);
                    ensure!(self.world.entities().delete(e).is_ok(), "entities().delete({e:?}) was refused although it is alive");
                    self.m.pending.insert(e);
                }
            }
            _ => {
                for e in some {
                    c.op("delete", e.index() as u64, 1);
                    ensure!(self.world.delete_entity(e).is_ok(), "delete_entity({e:?}) was refused although it is alive");
                    self.m.kill(e);
                    c.count("entities deleted", 1);
                }
            }
        }
        Ok(())
    }

    fn registration(&mut self, c: &mut Case) -> Res {
        let k = c.rng.idx(K);
        if c.rng.chance(2, 3) {
            c.op("register", k as u64, self.m.cols[k].is_some() as u64);
            self.register(k)?;
            if k >= TRACKED && c.rng.chance(2, 3) {
                for_tracked!(k, T => self.world.get_component_mut::<T>().set_track_modified(true));
                self.m.cols[k].as_mut().unwrap().tracking = true;
            }
            self.leaked.remove(&k);
        } else {
            c.op("unregister", k as u64, self.m.cols[k].is_some() as u64);
            self.unregister(k)?;
            self.leaked.remove(&k);
        }
        c.count("registrations changed", 1);
        Ok(())
    }

    /// A random operation by handle on a random component.
    fn component(&mut self, c: &mut Case) -> Res {
        let Some(e) = self.any_handle(&mut c.rng) else { return Ok(()) };
        let k = c.rng.idx(K);
        let alive = self.m.alive(e);
        let i = e.index();
        if self.m.cols[k].is_none() {
            if c.rng.chance(1, 4) {
                c.op("missing component", k as u64, 0);
                let r = for_comp!(k, T => catch(|| { self.world.get_component_mut::<T>(); }));
                ensure!(r.is_err(), "component {k} can be accessed although it is not registered");
            }
            return Ok(());
        }
        let mut how = self.how(&mut c.rng);
        if self.leaked.contains(&k) {
            // (direct access, both for reading and writing)
            how = 23;
        }
        let was = self.m.cols[k].as_ref().unwrap().vals.get(&i).copied().filter(|_| alive);
        c.count(if alive { "accesses by live handles" } else { "accesses by dead or foreign handles" }, 1);
        let what = if k == DENSE && c.rng.chance(1, 8) { 14 } else { c.rng.below(14) };
        let n = c.rng.below(1 << 30);
        let kind = ["get", "contains", "get_mut", "guard", "guard and edit", "insert", "insert", "insert", "remove", "get_or_insert_with", "get_or_default", "mark", "join", "join mutably", "slice"][what as usize];
        c.op(kind, i as u64 | (alive as u64) << 32, k as u64);
        macro_rules! on {
            ($vals:ident, $e:expr) => {{
                let $vals = self.m.cols[k].as_mut().unwrap();
                $e
            }};
        }
        match what {
            0 => for_comp!(k, T => {
                let got = reading!(self.world, how, T, a => a.get(e).map(|v| (v.tok().id, v.tok().val)));
                ensure_eq!(got, was, "get({e:?}) of component {k}, alive: {alive}");
            }),
            1 => for_comp!(k, T => {
                let got = reading!(self.world, how, T, a => a.contains(e));
                ensure_eq!(got, was.is_some(), "contains({e:?}) of component {k}, alive: {alive}");
            }),
            2 => for_comp!(k, T => {
                let got = writing!(self.world, how / 2, T, a => a.get_mut(e).map(|v| { let o = (v.tok().id, v.tok().val); v.tok_mut().val = n; o }));
                if was.is_some() {
                    on!(m, { m.vals.get_mut(&i).unwrap().1 = n; m.touch(i) });
                }
                ensure_eq!(got, was, "get_mut({e:?}) of component {k}, alive: {alive}");
            }),
            3..=4 => for_comp!(k, T => {
                let edit = what == 4;
                let got = writing!(self.world, how / 2, T, a => a.get_guard(e).map(|mut g| {
                    let o = (g.get().tok().id, g.get().tok().val);
                    if edit {
                        g.get_mut().tok_mut().val = n;
                    }
                    o
                }));
                if edit && was.is_some() {
                    on!(m, { m.vals.get_mut(&i).unwrap().1 = n; m.touch(i) });
                }
                ensure_eq!(got, was, "get_guard({e:?}) of component {k}, alive: {alive}");
            }),
            5..=7 => for_comp!(k, T => {
                let t = self.ledger.tok();
                let now = (t.id, t.val);
                if alive {
                    on!(m, { m.vals.insert(i, now); m.touch(i) });
                }
                let got = writing!(self.world, how / 2, T, a => a.insert(e, T::new(t)).map(|o| o.map(T::into_tok)));
                match got {
                    Ok(o) => {
                        ensure!(alive, "insert({e:?}) of component {k} succeeded although it is not alive");
                        ensure_eq!(o.as_ref().map(|t| (t.id, t.val)), was, "what insert({e:?}) of component {k} replaced");
                        self.kept.extend(o);
                    }
                    Err(_) => ensure!(!alive, "insert({e:?}) of component {k} was refused although it is alive"),
                }
            }),
            8 => for_comp!(k, T => {
                if was.is_some() {
                    on!(m, { m.vals.remove(&i); m.touch(i) });
                }
                let got = writing!(self.world, how / 2, T, a => a.remove(e).map(|o| o.map(T::into_tok)));
                match got {
                    Ok(o) => {
                        ensure!(alive, "remove({e:?}) of component {k} succeeded although it is not alive");
                        ensure_eq!(o.as_ref().map(|t| (t.id, t.val)), was, "what remove({e:?}) of component {k} returned");
                        self.kept.extend(o);
                    }
                    Err(_) => ensure!(!alive, "remove({e:?}) of component {k} was refused although it is alive"),
                }
            }),
            9..=10 => for_comp!(k, T => {
                let mut called = 0;
                let ledger = &self.ledger;
                let default = what == 10;
                let got: Result<Val, _> = writing!(self.world, how / 2, T, a => {
                    let r = if default {
                        a.get_or_default(e)
                    } else {
                        a.get_or_insert_with(e, || {
                            called += 1;
                            ledger.table.callback("initialiser");
                            T::new(ledger.tok())
                        })
                    };
                    r.map(|v| { let o = (v.tok().id, v.tok().val); v.tok_mut().val = n; o })
                });
                ensure_eq!(got.is_ok(), alive, "{kind}({e:?}) of component {k}, alive: {alive}");
                ensure!(
                    default || called == (alive && was.is_none()) as u32,
                    "{kind}({e:?}) of component {k} ran the initialiser {called} times, alive: {alive}, there was: {was:?}"
                );
                if let Ok(o) = got {
                    match was {
                        Some(_) => ensure_eq!(Some(o), was, "{kind}({e:?}) of component {k}"),
                        None => {
                            let fresh = !self.reachable().contains(&o.0) && self.ledger.is_live(o.0);
                            ensure!(fresh, "{kind}({e:?}) of component {k} gave {o:?}, which is not the new value");
                        }
                    }
                    on!(m, { m.vals.insert(i, (o.0, n)); m.touch(i) });
                }
            }),
            11 if k >= TRACKED => for_tracked!(k, T => {
                let got = reading!(self.world, how, T, a => a.mark_modified(e));
                ensure_eq!(got.is_ok(), alive, "mark_modified({e:?}) of component {k}, alive: {alive}");
                if alive {
                    on!(m, m.modified.insert(i));
                }
            }),
            12 => for_comp!(k, T => {
                // Everything at once, with the entities.
                let got: BTreeMap<u32, (Entity, Val)> = if self.leaked.contains(&k) {
                    BTreeMap::new()
                } else {
                    let (es, a) = self.world.fetch::<(Entities, ReadComponent<T>)>();
                    (&es, &a).join().map(|(e, v)| (e.index(), (e, (v.tok().id, v.tok().val)))).collect()
                };
                if !self.leaked.contains(&k) {
                    let want: BTreeMap<u32, (Entity, Val)> = self.m.cols[k].as_ref().unwrap().vals.iter().map(|(i, v)| (*i, (self.m.live[i], *v))).collect();
                    ensure_eq!(got, want, "join of the entities and component {k}");
                }
            }),
            13 => for_comp!(k, T => {
                if self.leaked.contains(&k) {
                    return Ok(());
                }
                {
                    let (es, mut a) = self.world.fetch::<(Entities, WriteComponent<T>)>();
                    for (_, v) in (&es, &mut a).join() {
                        v.tok_mut().val ^= n;
                    }
                }
                on!(m, {
                    let all: Vec<u32> = m.vals.keys().copied().collect();
                    for i in all {
                        m.vals.get_mut(&i).unwrap().1 ^= n;
                        m.touch(i);
                    }
                });
            }),
            14 => {
                let got: BTreeSet<Val> = reading!(self.world, how, C<DENSE>, a => a.as_slice().iter().map(|v| (v.tok().id, v.tok().val)).collect());
                on!(m, {
                    ensure_eq!(got, m.vals.values().copied().collect(), "values in the slice of component {k}");
                    let len = writing!(self.world, how / 2, C<DENSE>, a => {
                        a.as_mut_slice().iter_mut().for_each(|v| v.tok_mut().val ^= n);
                        a.as_mut_slice().len()
                    });
                    m.vals.values_mut().for_each(|v| v.1 ^= n);
                    ensure_eq!(len, m.vals.len(), "length of the slice of component {k}");
                })
            }
            _ => {}
        }
        Ok(())
    }

    /// Changes to the tracking of modifications.
    fn tracking(&mut self, c: &mut Case) -> Res {
        let k = c.rng.range(TRACKED as u64, K as u64 - 1) as usize;
        let Some(col) = self.m.cols[k].as_mut() else { return Ok(()) };
        let mut how = c.rng.below(4);
        if self.leaked.contains(&k) {
            how = 3;
        }
        let what = c.rng.below(5);
        c.op(["track", "do not track", "clear modified", "join modified", "join modified mutably"][what as usize], k as u64, 0);
        for_tracked!(k, T => writing!(self.world, how, T, a => match what {
            0 => { a.set_track_modified(true); col.tracking = true; }
            1 => { a.set_track_modified(false); col.tracking = false; }
            2 => { a.clear_modified(); col.modified.clear(); }
            3 => {
                let got: Vec<Option<Val>> = a.modified().join().map(|v| v.map(|v: &T| (v.tok().id, v.tok().val))).collect();
                let want: Vec<Option<Val>> = col.modified.iter().map(|i| col.vals.get(i).copied()).collect();
                ensure_eq!(got, want, "items of the join of what was modified of component {k}");
            }
            _ => {
                let got: Vec<Option<Val>> = a.modified_mut().join().map(|v| v.map(|v: &mut T| { v.tok_mut().val += 1; (v.tok().id, v.tok().val) })).collect();
                for i in &col.modified {
                    if let Some(v) = col.vals.get_mut(i) {
                        v.1 += 1;
                    }
                }
                let want: Vec<Option<Val>> = col.modified.iter().map(|i| col.vals.get(i).copied()).collect();
                ensure_eq!(got, want, "items of the mutable join of what was modified of component {k}");
            }
        }));
        Ok(())
    }

    /// Operations on dynamic sets.
    fn set_op(&mut self, c: &mut Case) -> Res {
        if self.sets.is_empty() || (self.sets.len() < 4 && c.rng.chance(1, 6)) {
            let s = match c.rng.below(3) {
                0 => Set::Any(AnyComponentSet::new()),
                1 => Set::Any(AnyComponentSet::default()),
                _ => Set::Clone(if c.rng.bool() { AnyCloneComponentSet::new() } else { AnyCloneComponentSet::default() }),
            };
            c.op("new set", matches!(s, Set::Clone(_)) as u64, 0);
            self.sets.push((s, BTreeMap::new()));
        }
        let n = c.rng.idx(self.sets.len());
        let k = c.rng.idx(K);
        let v = c.rng.below(1 << 30);
        let what = c.rng.below(12);
        let kind = ["set: insert", "set: insert", "set: insert", "set: get", "set: edit", "set: remove", "set: merge", "set: clone into set", "set: into world", "set: into world", "set: into world", "set: drop"][what as usize];
        c.op(kind, n as u64, k as u64);
        let m = &mut self.sets[n].1;
        let was = m.get(&k).copied();
        match what {
            0..=2 => {
                let t = self.ledger.tok();
                m.insert(k, (t.id, t.val));
                let old = for_comp!(k, T => match &mut self.sets[n].0 {
                    Set::Any(s) => s.insert(T::new(t)).map(T::into_tok),
                    Set::Clone(s) => s.insert(T::new(t)).map(T::into_tok),
                });
                ensure_eq!(old.as_ref().map(|t| (t.id, t.val)), was, "what inserting component {k} into a set replaced");
                self.kept.extend(old);
            }
            3 => for_comp!(k, T => {
                let (has, got) = match &self.sets[n].0 {
                    Set::Any(s) => (s.contains::<T>(), s.get::<T>()),
                    Set::Clone(s) => (s.contains::<T>(), s.get::<T>()),
                };
                ensure_eq!(got.map(|v| (v.tok().id, v.tok().val)), was, "component {k} of a set");
                ensure_eq!(has, was.is_some(), "whether a set contains component {k}");
            }),
            4 => for_comp!(k, T => {
                let got = match &mut self.sets[n].0 {
                    Set::Any(s) => s.get_mut::<T>(),
                    Set::Clone(s) => s.get_mut::<T>(),
                };
                ensure_eq!(got.as_ref().map(|v| (v.tok().id, v.tok().val)), was, "component {k} of a set, for editing");
                if let Some(x) = got {
                    x.tok_mut().val = v;
                    self.sets[n].1.get_mut(&k).unwrap().1 = v;
                }
            }),
            5 => {
                let (Set::Any(s), m) = &mut self.sets[n] else { return Ok(()) };
                m.remove(&k);
                let old = for_comp!(k, T => s.remove::<T>().map(T::into_tok));
                ensure_eq!(old.as_ref().map(|t| (t.id, t.val)), was, "removing component {k} from a set");
                self.kept.extend(old);
            }
            6 => {
                let Some(o) = (0..self.sets.len()).find(|o| {
                    *o != n && matches!(&self.sets[*o].0, Set::Any(_)) == matches!(&self.sets[n].0, Set::Any(_))
                }) else {
                    return Ok(());
                };
                let (from, fm) = std::mem::replace(&mut self.sets[o], (Set::Any(AnyComponentSet::new()), BTreeMap::new()));
                let (to, tm) = &mut self.sets[n];
                let over = fm.keys().any(|k| tm.contains_key(k));
                tm.extend(fm);
                let got = match (to, from) {
                    (Set::Any(t), Set::Any(f)) => t.merge(f),
                    (Set::Clone(t), Set::Clone(f)) => t.merge(f),
                    _ => unreachable!(),
                };
                ensure_eq!(got, over, "whether merging sets replaced anything");
            }
            7 => {
                let Some(o) = (0..self.sets.len()).find(|o| matches!(&self.sets[*o].0, Set::Any(_))) else {
                    return Ok(());
                };
                if !matches!(&self.sets[n].0, Set::Clone(_)) {
                    return Ok(());
                }
                let (mut to, tm) = std::mem::replace(&mut self.sets[o], (Set::Any(AnyComponentSet::new()), BTreeMap::new()));
                let (from, fm) = &self.sets[n];
                let over = fm.keys().any(|k| tm.contains_key(k));
                let r = match (&mut to, from) {
                    (Set::Any(t), Set::Clone(f)) => catch(|| f.clone_into_set(t)),
                    _ => unreachable!(),
                };
                let fm = fm.clone();
                // Take over the copies, by their origin.
                let got = self.contents_of(&to)?;
                self.sets[o] = (to, got.clone());
                let over_got = match r {
                    Ok(g) => g,
                    Err(p) => gmon::rethrow(p),
                };
                ensure_eq!(over_got, over, "whether cloning into a set replaced anything");
                let mut want = tm;
                for (k, v) in fm {
                    let g = got.get(&k).copied().unwrap_or((0, 0));
                    ensure!(
                        self.ledger.parent(g.0) == Some(v.0) && g.1 == v.1,
                        "component {k} of a set is {g:?} after cloning {v:?} into it"
                    );
                    want.insert(k, g);
                }
                ensure_eq!(got, want, "set after cloning into it");
            }
            8..=10 => self.into_world(c, n)?,
            _ => {
                if self.sets.len() > 1 {
                    drop(self.sets.swap_remove(n));
                    return Ok(());
                }
            }
        }
        self.compare_sets()
    }

    fn contents_of(&self, s: &Set) -> Res<BTreeMap<usize, Val>> {
        let mut got = BTreeMap::new();
        for k in 0..K {
            for_comp!(k, T => {
                let v = match s {
                    Set::Any(s) => s.get::<T>(),
                    Set::Clone(s) => s.get::<T>(),
                };
                if let Some(v) = v {
                    ensure!(v.tok().sane(), "component {k} of a set is not a value");
                    got.insert(k, (v.tok().id, v.tok().val));
                }
            })
        }
        if let Set::Any(s) = s {
            ensure_eq!(s.len(), got.len(), "length of a set");
        }
        Ok(got)
    }

    fn compare_sets(&self) -> Res {
        for (s, m) in &self.sets {
            ensure_eq!(self.contents_of(s)?, *m, "contents of a set");
        }
        Ok(())
    }

    fn into_world(&mut self, c: &mut Case, n: usize) -> Res {
        let Some(e) = self.any_handle(&mut c.rng) else { return Ok(()) };
        let m = self.sets[n].1.clone();
        if m.keys().any(|k| self.m.cols[*k].is_none()) {
            // Documented to panic, whatever has been put there before that.
            if self.focus == Focus::Panics || c.rng.chance(2, 3) {
                return Ok(());
            }
            let alive = self.m.alive(e);
            let before = self.m.clone();
            let sets: Vec<_> = self.sets.iter().map(|s| s.1.clone()).collect();
            let born = self.ledger.created();
            let r = if let Set::Clone(s) = &self.sets[n].0 {
                catch(|| s.insert_into_world(&mut self.world, e))
            } else {
                let Set::Any(s) = self.sets.swap_remove(n).0 else { unreachable!() };
                catch(|| s.insert_into_world(&mut self.world, e))
            };
            match r {
                Err(_) => {}
                Ok(r) => ensure!(!alive && r.is_err(), "a set with an unregistered component was put on {e:?}: {r:?}"),
            }
            c.count("sets with unregistered components", 1);
            let op = if alive { "set: into world" } else { "set: refused" };
            return self.resync(&before, &sets, (op, 0, 0), born);
        }
        let alive = self.m.alive(e);
        let i = e.index();
        self.onto_dead = !alive;
        c.count(if alive { "sets put on live entities" } else { "sets put on dead or foreign handles" }, 1);
        let over = m.keys().any(|k| self.m.cols[*k].as_ref().unwrap().vals.contains_key(&i));
        let by_value = matches!(&self.sets[n].0, Set::Any(_));
        if by_value {
            let (s, _) = self.sets.swap_remove(n);
            let Set::Any(s) = s else { unreachable!() };
            if alive {
                for (k, v) in &m {
                    let col = self.m.cols[*k].as_mut().unwrap();
                    col.vals.insert(i, *v);
                    col.touch(i);
                }
            }
            let r = s.insert_into_world(&mut self.world, e);
            self.delivered(r.ok(), alive, over, m.is_empty(), e)?;
        } else {
            let Set::Clone(s) = &self.sets[n].0 else { unreachable!() };
            let r = s.insert_into_world(&mut self.world, e);
            self.delivered(r.ok(), alive, over, m.is_empty(), e)?;
            if alive {
                for (k, v) in &m {
                    let got = for_comp!(*k, T => self.world.get_component_mut::<T>().get(e).map(|v| (v.tok().id, v.tok().val)));
                    let g = got.unwrap_or((0, 0));
                    ensure!(
                        self.ledger.parent(g.0) == Some(v.0) && g.1 == v.1,
                        "component {k} of {e:?} is {got:?} after a copy of {v:?} was put there"
                    );
                    let col = self.m.cols[*k].as_mut().unwrap();
                    col.vals.insert(i, g);
                    col.touch(i);
                }
            }
        }
        Ok(())
    }

    fn delivered(&self, r: Option<bool>, alive: bool, over: bool, empty: bool, e: Entity) -> Res {
        match r {
            Some(o) if alive => ensure_eq!(o, over, "whether putting a set on {e:?} replaced anything"),
            // (Whether putting nothing on a dead entity is refused does not matter.)
            Some(o) => ensure!(empty && !o, "putting a set on {e:?} succeeded, although it is not alive"),
            None => ensure!(!alive, "putting a set on {e:?} was refused, although it is alive"),
        }
        Ok(())
    }

    /// Let go of some values that were handed back.
    fn release(&mut self, c: &mut Case) -> Res {
        c.op("release", self.kept.len() as u64, self.old.len() as u64);
        for t in &self.kept {
            ensure!(t.sane() && self.ledger.is_live(t.id), "a value that was handed back is gone: {t:?}");
        }
        self.kept.clear();
        if !self.old.is_empty() {
            let n = c.rng.idx(self.old.len());
            self.check_old(n)?;
            drop(self.old.swap_remove(n));
        }
        Ok(())
    }

    fn leak(&mut self, c: &mut Case) {
        let k = c.rng.idx(K);
        if self.m.cols[k].is_some() && !self.leaked.contains(&k) {
            c.op("leak a guard", k as u64, 0);
            c.count("leaked guards", 1);
            if c.rng.bool() {
                for_comp!(k, T => std::mem::forget(self.world.write_component::<T>()));
            } else {
                for_comp!(k, T => std::mem::forget(self.world.read_component::<T>()));
            }
            self.leaked.insert(k);
        }
    }

    fn step(&mut self, c: &mut Case) -> Res {
        let weights: [u32; 10] = match self.focus {
            Focus::Lifetimes => [12, 10, 8, 6, 4, 40, 2, 4, 3, 1],
            Focus::Handles => [10, 8, 5, 4, 1, 70, 3, 3, 2, 1],
            Focus::Sets => [8, 4, 3, 3, 1, 20, 1, 60, 3, 0],
            Focus::Drops => [10, 10, 6, 5, 4, 40, 1, 30, 6, 0],
            Focus::Panics => [12, 10, 6, 6, 2, 40, 1, 30, 4, 0],
            Focus::Tracking => [10, 8, 5, 4, 2, 60, 25, 6, 2, 0],
        };
        if c.rng.chance(1, if self.cap > 5000 { 3 } else if self.cap > 12 { 12 } else { 60 }) && self.focus != Focus::Panics {
            return self.bulk(c);
        }
        match c.rng.weighted(&weights) {
            0 => self.create(c),
            1 => self.delete(c),
            2 => self.request(c),
            3 => self.merge(c),
            4 => self.registration(c),
            5 => self.component(c),
            6 => self.tracking(c),
            7 => self.set_op(c),
            8 => self.release(c),
            // (With debug assertions, `atomic_refcell` panics on exclusive access after a leak.)
            _ if !cfg!(debug_assertions) => {
                self.leak(c);
                Ok(())
            }
            _ => Ok(()),
        }
    }

    /// After an operation panicked on purpose: what is there must make sense, and becomes the model.
    fn resync(&mut self, before: &Model, sets_before: &[BTreeMap<usize, Val>], op: (&'static str, u64, u64), born: u64) -> Res {
        let when = format!("after a panic in {op:?}");
        ensure_eq!(self.world.entities().max_entity_count() as usize >= self.m.live.len(), true, "{when}: entity count");
        let live: BTreeMap<u32, Entity> = {
            let e = self.world.entities();
            (&e).join().map(|e| (e.index(), e)).collect()
        };
        for (i, e) in &live {
            ensure!(self.world.entities().is_alive(*e) && self.world.entities().entity(*i) == Some(*e), "{when}: {e:?} is in the live set, but not alive");
            if !self.handles.contains(e) {
                self.handles.push(*e);
                self.known.insert(*e);
            }
        }
        // Entities: only those the operation was about may be gone.
        for (i, e) in &before.live {
            if live.get(i) != Some(e) {
                let asked = match op.0 {
                    "delete" => op.1 == *i as u64,
                    "merge" => before.pending.contains(e),
                    _ => false,
                };
                ensure!(asked, "{when}: {e:?} is not alive any more");
            }
        }
        if op.0 == "merge" {
            for e in &before.pending {
                ensure!(live.get(&e.index()) != Some(e), "{when}: {e:?}, which a merge was to delete, is still alive");
            }
        }
        self.m.live = live;
        self.m.pending = before.pending.iter().copied().filter(|e| self.m.alive(*e)).collect();
        let mut present: BTreeSet<u64> = BTreeSet::new();
        for k in 0..K {
            let reg = for_comp!(k, T => self.world.contains_component::<T>());
            let b = before.cols[k].as_ref();
            if reg != b.is_some() {
                ensure!(op.0 == "register" || op.0 == "unregister", "{when}: the registration of component {k} changed");
            }
            if !reg {
                self.m.cols[k] = None;
                continue;
            }
            let mut col = Col::default();
            for_comp!(k, T => {
                if !self.leaked.contains(&k) {
                    let free = catch(|| { self.world.write_component::<T>(); });
                    ensure!(free.is_ok(), "{when}: component {k} is still borrowed");
                }
                let s = self.world.get_component_mut::<T>();
                col.vals = read_col::<T>(s.storage(), 24)?;
            });
            if k >= TRACKED {
                for_tracked!(k, T => {
                    let s = self.world.get_component_mut::<T>();
                    col.tracking = s.tracking_modified();
                    col.modified = read_modified::<T>(s.storage());
                });
            }
            let none = BTreeMap::new();
            let old = b.map(|b| &b.vals).unwrap_or(&none);
            for (i, v) in &col.vals {
                ensure!(
                    self.m.live.contains_key(i),
                    "{when}: component {k} (value {v:?}) is left at index {i}, where no entity is alive"
                );
                ensure!(self.ledger.is_live(v.0), "{when}: component {k} at index {i} has been dropped, and is still there");
                ensure!(present.insert(v.0), "{when}: value {v:?} is in two places");
                if old.get(i).map(|o| o.0) != Some(v.0) {
                    // Something else than before: what the operation was to put there.
                    let about = match op.0 {
                        "insert" | "get_or_insert_with" | "get_or_default" => op.1 as u32 == *i && op.2 == k as u64,
                        "set: into world" => true,
                        _ => false,
                    };
                    let fits = v.0 > born || sets_before.iter().any(|s| s.get(&k).map(|x| x.0) == Some(v.0));
                    ensure!(about && fits, "{when}: component {k} at index {i} changed from {:?} to {v:?}", old.get(i));
                }
            }
            for (i, v) in old {
                if !col.vals.contains_key(i) {
                    let about = match op.0 {
                        "delete" => op.1 as u32 == *i,
                        "merge" => before.pending.iter().any(|e| e.index() == *i),
                        "remove" => op.1 as u32 == *i && op.2 == k as u64,
                        "insert" | "set: into world" => true,
                        "register" | "unregister" => true,
                        _ => false,
                    };
                    ensure!(about && (op.0 != "insert" || op.1 as u32 == *i), "{when}: component {k} of index {i}, {v:?}, is gone");
                }
            }
            self.m.cols[k] = Some(col);
        }
        // Sets.
        let mut all = Vec::new();
        for (s, _) in &self.sets {
            let m = self.contents_of(s)?;
            for (k, v) in &m {
                ensure!(self.ledger.is_live(v.0), "{when}: component {k} of a set has been dropped, and is still there");
                ensure!(present.insert(v.0), "{when}: value {v:?} is in two places");
            }
            all.push(m);
        }
        for ((_, m), now) in self.sets.iter_mut().zip(all) {
            *m = now;
        }
        if op.0 == "set: drop" || (op.0 == "set: into world" && self.onto_dead) {
            let gone = sets_before.iter().flat_map(|s| s.values()).map(|v| v.0);
            self.lost.extend(gone.filter(|v| !present.contains(v) && self.ledger.is_live(*v)));
        }
        // Values that were handed back may have been lost with the caller's variables, that is, dropped.
        self.check_values(&when)?;
        self.compare(&when)
    }
}

fn simulate(c: &mut Case, focus: Focus, huge: bool) -> Res {
    let mut s = Sim::new(c, focus, huge)?;
    let steps = if s.cap > 5000 { c.rng.range(20, 50) } else if s.cap > 1000 { c.rng.range(30, 80) } else if s.cap > 60 { c.rng.range(100, 600) } else { c.rng.range(20, 250) };
    let mut panics = 0;
    for n in 0..steps {
        if focus == Focus::Panics && c.rng.chance(1, 4) {
            let before = s.m.clone();
            let sets: Vec<_> = s.sets.iter().map(|s| s.1.clone()).collect();
            let born = s.ledger.created();
            let fuse = if c.rng.bool() { 0 } else { c.rng.below(6) };
            let fired = s.ledger.fired();
            // (A panic that is caught within the operation may not be the last.)
            let (gap, again) = if c.rng.bool() { (c.rng.below(3), c.rng.range(1, 6)) } else { (0, 0) };
            s.ledger.arm_again(fuse, gap, again);
            let r = catch(|| s.step(c));
            s.ledger.disarm();
            c.count("operations with several panics", (s.ledger.fired() > fired + 1) as u64);
            match r {
                Ok(r) => {
                    ensure!(s.ledger.fired() == fired, "an injected panic was swallowed");
                    r?
                }
                Err(p) => {
                    ensure!(p.msg.starts_with(INJECTED), "unexpected panic: {}", p.msg);
                    let mut op = c.ops.last().copied().unwrap_or(("", 0, 0));
                    // (what is known of handles is only the index)
                    if matches!(op.0, "get" | "contains" | "get_mut" | "guard" | "guard and edit" | "insert" | "remove" | "get_or_insert_with" | "get_or_default" | "mark") {
                        op.1 &= u32::MAX as u64;
                    }
                    panics += 1;
                    c.count("operations that panicked", 1);
                    s.resync(&before, &sets, op, born)?;
                }
            }
        } else {
            s.step(c)?;
        }
        match focus {
            Focus::Drops if s.cap > 60 => {}
            Focus::Drops | Focus::Panics => s.check_values("after an operation")?,
            _ => {}
        }
        if n % 16 == 0 || s.cap <= 12 || c.rng.chance(1, 8) || (s.cap > 12 && matches!(c.ops.last(), Some(("merge", ..)))) {
            s.compare("comparison")?;
            c.count("states compared", 1);
        }
    }
    s.compare("at the end")?;
    // Everything goes.
    c.max("entities created in one world", s.known.len() as u64);
    c.nontrivial = c.ops.len() > 10 && (!huge || s.known.len() > 1000) && (focus != Focus::Panics || panics > 0);
    let Sim { world, other, sets, old, kept, ledger, focus, lost, .. } = s;
    let fuse = focus == Focus::Panics && c.rng.bool();
    let kept_ids: BTreeSet<u64> = kept.iter().map(|t| t.id).collect();
    let old_ids: BTreeSet<u64> = old.iter().flat_map(|o| o.2.vals.values().map(|v| v.0)).collect();
    let set_ids: BTreeSet<u64> = sets.iter().flat_map(|s| s.1.values().map(|v| v.0)).collect();
    let mut left: BTreeSet<u64> = kept_ids;
    left.extend(&old_ids);
    left.extend(&set_ids);
    left.extend(&lost);
    if !fuse {
        drop(world);
        ledger.expect_live(&left, "after the world was dropped")?;
        drop(sets);
        left.retain(|i| !set_ids.contains(i));
        ledger.expect_live(&left, "after the sets were dropped")?;
        drop(old);
        left.retain(|i| !old_ids.contains(i));
        ledger.expect_live(&left, "after the old storages were dropped")?;
        drop(kept);
        ledger.expect_live(&lost, "at the very end")?;
    } else {
        // A destructor panics: nothing may be dropped twice, and a single storage must not lose anything.
        // (What becomes of the other storages is up to the standard library's hash map.)
        for (b, _, col) in old {
            if col.vals.is_empty() {
                continue;
            }
            let at = c.rng.below(col.vals.len() as u64);
            ledger.arm(at);
            let r = catch(|| drop(b));
            ledger.disarm();
            ensure!(matches!(&r, Err(p) if p.msg.starts_with(INJECTED)), "a panicking destructor in a storage: {r:?}");
            left.retain(|i| !col.vals.values().any(|v| v.0 == *i));
            ledger.expect_live(&{
                let mut v = left.clone();
                v.extend(ledger.live().intersection(&world_ids(&world)));
                v
            }, "after a storage was dropped while a destructor panicked")?;
            c.count("storages dropped with a panicking destructor", 1);
        }
        let at = c.rng.below(8);
        ledger.arm(at);
        let _ = catch(|| drop(world));
        ledger.disarm();
        ledger.check()?;
        for i in &left {
            ensure!(ledger.is_live(*i), "value {i} is not the world's, and was dropped with it");
        }
        drop((sets, kept));
        ledger.check()?;
    }
    drop(other);
    Ok(())
}

fn world_ids(w: &World) -> BTreeSet<u64> {
    let mut v = BTreeSet::new();
    for k in 0..K {
        for_comp!(k, T => {
            if w.contains_component::<T>() {
                let a = w.read_component::<T>();
                v.extend((&a).join().map(|c| c.tok().id));
            }
        });
    }
    v
}

fn main() {
    let opts = Opts::parse();
    let r = Runner::new(opts.clone());
    let t = opts.threads;
    let (focus, rule, quick, thorough) = match opts.id.as_str() {
        "C22" => (Focus::Lifetimes, "creation, deletion, deferred deletion, merging, component accesses and changes of registration on worlds of up to 5000 entities, one at a time and in bulk and 6 component types, everything visible compared with a model; non-trivial: more than 10 operations", 6000, 100_000),
        "C23" => (Focus::Handles, "component accesses of every kind through live, stale and foreign handles, by shared, exclusive and direct access, compared with a model; non-trivial: more than 10 operations", 6000, 100_000),
        "C24" => (Focus::Sets, "dynamic sets filled, edited, merged, cloned and put on live and dead entities, every set and the world compared with a model; non-trivial: more than 10 operations", 6000, 100_000),
        "C08" => (Focus::Drops, "world operations of every kind, the ledger of numbered components compared with what is stored or was handed back after each; non-trivial: more than 10 operations", 6000, 100_000),
        "C09" => (Focus::Panics, "world operations during which an initialiser, destructor, default or clone panics; what is left must be a mixture of before and after, with no borrow held and no component without entity; non-trivial: some operation panicked", 6000, 100_000),
        "C11" => (Focus::Tracking, "world operations on tracked components, modified sets compared with a model; non-trivial: more than 10 operations", 6000, 100_000),
        "C19" => {
            sched::run(r, &opts);
            r.finish();
        }
        "C27" => {
            parallel::run(r, &opts);
            r.finish();
        }
        id => panic!("unknown property {id}"),
    };
    if let Focus::Lifetimes | Focus::Sets = focus {
        types::run(r, &opts, focus == Focus::Sets);
    }
    r.run("worlds", rule, opts.n(quick, thorough), t, |c| simulate(c, focus, false));
    if focus != Focus::Panics {
        let rule = "the same on worlds of 5001 to 150000 entities, mostly in bulk; non-trivial: more than 1000 entities created";
        r.run("huge-worlds", rule, opts.n(4, 60), t, |c| simulate(c, focus, true));
    }
    r.finish();
}
