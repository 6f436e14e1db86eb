//! C25, C26: safe programs for Miri and the compiler's sanitizers to watch.
//!
//! Nothing in here is unsafe, so whatever those report is goggles' doing.  There is no model and no oracle
//! here: the values own memory (or have odd layouts), every reference that the interface lets live at the
//! same time is kept and used in turns, and callbacks, consumers and destructors panic.  Kept small, because
//! an interpreter runs it.
#![forbid(unsafe_code)]
use std::{
    cell::Cell,
    collections::HashSet,
    hint::black_box,
    mem,
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Barrier,
    },
    thread,
};

use gmon::{catch, quiet_panics, Rng};
use goggles::{
    entity::Allocator,
    hibitset::{BitSet, BitSetAll, BitSetLike, BitSetNot},
    par,
    par_join::ParJoinExt,
    parallelize,
    rayon::{self, prelude::*},
    seq,
    system::{ParList, SeqList},
    AnyCloneComponentSet, AnyComponentSet, Component, DenseStorage, DenseVecStorage, Entities, Entity, FetchResources,
    Flagged, HashMapStorage, IntoJoinExt, JoinIter, MakeSync, MaskedStorage, Pool, RawStorage, RayonPool, Read,
    ReadComponent, ReadResource, ResourceConflict, ResourceSet, Resources, RwResources, SeqPool, System, TrackedStorage,
    VecStorage, World, WorldResources, Write, WriteComponent, WriteResource,
};

// ---------------------------------------------------------------------------------------------
// Values

thread_local! {
    static FUSE: Cell<u64> = const { Cell::new(u64::MAX) };
    static BLOWN: Cell<u64> = const { Cell::new(0) };
}

/// The `n`th callback from now on panics.
fn arm(n: u64) {
    FUSE.with(|f| f.set(n));
}

fn callback() {
    if thread::panicking() {
        return;
    }
    let n = FUSE.with(|f| f.get());
    if n == u64::MAX {
        return;
    }
    FUSE.with(|f| f.set(if n == 0 { u64::MAX } else { n - 1 }));
    if n == 0 {
        BLOWN.with(|b| b.set(b.get() + 1));
        panic!("fuse");
    }
}

pub trait Val: Send + Sync + Sized + 'static {
    fn make(v: u64) -> Self;
    fn look(&self) -> u64;
    fn edit(&mut self, v: u64);
}

/// Owns memory, and its destructor may panic.
#[derive(Debug)]
pub struct Bx<const N: usize>(Box<u64>);
impl<const N: usize> Val for Bx<N> {
    fn make(v: u64) -> Self {
        Bx(Box::new(v))
    }
    fn look(&self) -> u64 {
        *self.0
    }
    fn edit(&mut self, v: u64) {
        *self.0 ^= v;
    }
}
impl<const N: usize> Clone for Bx<N> {
    fn clone(&self) -> Self {
        callback();
        Bx(self.0.clone())
    }
}
impl<const N: usize> Default for Bx<N> {
    fn default() -> Self {
        callback();
        Bx(Box::new(0))
    }
}
impl<const N: usize> Drop for Bx<N> {
    fn drop(&mut self) {
        *self.0 = 0xDEAD;
        callback();
    }
}

/// Nothing at all, but with a destructor.
pub struct Zs;
impl Val for Zs {
    fn make(_: u64) -> Self {
        Zs
    }
    fn look(&self) -> u64 {
        0
    }
    fn edit(&mut self, _: u64) {}
}
impl Drop for Zs {
    fn drop(&mut self) {
        callback();
    }
}

/// Aligned, with padding and a niche.
#[repr(align(32))]
pub struct Al(Option<Box<u8>>, u8);
impl Val for Al {
    fn make(v: u64) -> Self {
        Al(if v % 3 == 0 { None } else { Some(Box::new(v as u8)) }, v as u8)
    }
    fn look(&self) -> u64 {
        self.0.as_ref().map_or(0, |b| **b as u64) + self.1 as u64
    }
    fn edit(&mut self, v: u64) {
        self.0 = if v % 2 == 0 { None } else { Some(Box::new(v as u8)) };
        self.1 = v as u8;
    }
}

/// Only some values are valid.
pub struct Bo(bool, char);
impl Val for Bo {
    fn make(v: u64) -> Self {
        Bo(v % 2 == 0, char::from_u32(v as u32 % 0xD000).unwrap())
    }
    fn look(&self) -> u64 {
        self.0 as u64 + self.1 as u64
    }
    fn edit(&mut self, v: u64) {
        *self = Bo::make(v);
    }
}

impl Val for String {
    fn make(v: u64) -> Self {
        format!("{v}")
    }
    fn look(&self) -> u64 {
        self.len() as u64
    }
    fn edit(&mut self, _: u64) {
        self.push('x');
        if self.len() > 40 {
            self.clear();
        }
    }
}

#[derive(Default)]
struct Seen {
    ops: u64,
    caught: u64,
    kinds: HashSet<u64>,
}

impl Seen {
    fn op(&mut self, kind: u64) {
        self.ops += 1;
        self.kinds.insert(kind);
    }
}

fn try_<T>(s: &mut Seen, f: impl FnOnce() -> T) -> Option<T> {
    let r = catch(f);
    arm(u64::MAX);
    match r {
        Ok(x) => Some(x),
        Err(_) => {
            s.caught += 1;
            None
        }
    }
}

fn some_bits(rng: &mut Rng, ix: &[u32]) -> BitSet {
    ix.iter().copied().filter(|_| rng.chance(2, 3)).collect()
}

/// Use many references, which are all supposed to be distinct, in turns.
fn stir<V: Val>(rng: &mut Rng, v: &mut [&mut V]) {
    for _ in 0..2 * v.len() {
        if v.is_empty() {
            return;
        }
        let (i, j) = (rng.idx(v.len()), rng.idx(v.len()));
        if i != j && rng.bool() {
            let (lo, hi) = (i.min(j), i.max(j));
            let (a, b) = v.split_at_mut(hi);
            mem::swap(&mut *a[lo], &mut *b[0]);
        } else {
            let x = v[i].look();
            v[j].edit(x);
        }
    }
    for r in v {
        black_box(r.look());
    }
}

// ---------------------------------------------------------------------------------------------
// Storages

fn raw_ops<S>(rng: &mut Rng, seen: &mut Seen, s: &mut MaskedStorage<S>, other: &mut MaskedStorage<VecStorage<Bx<9>>>, ix: &[u32])
where
    S: RawStorage + Default + Send,
    S::Item: Val,
{
    let i = *rng.pick(ix);
    let x = rng.u64() >> 20;
    let kind = rng.below(24);
    seen.op(kind);
    if rng.chance(1, 3) {
        arm(rng.below(6));
    }
    let bits = some_bits(rng, ix);
    let mut r2 = rng.fork();
    try_(seen, || {
        let rng = &mut r2;
        match kind {
            0..=4 => {
                black_box(s.insert(i, S::Item::make(x)).map(|v| v.look()));
            }
            5..=6 => {
                black_box(s.remove(i).map(|v| v.look()));
            }
            7 => {
                if let Some(v) = s.get_mut(i) {
                    v.edit(x);
                }
                black_box(s.get(i).map(|v| v.look()));
            }
            8 => {
                let panics = rng.chance(1, 3);
                s.get_or_insert_with(i, || {
                    if panics {
                        panic!("no value");
                    }
                    S::Item::make(x)
                })
                .edit(x);
            }
            9 => {
                if let Some(mut g) = s.get_guard(i) {
                    black_box(g.get().look());
                    g.get_mut().edit(x);
                    let (a, b) = (g.get(), g.get());
                    black_box(a.look() + b.look());
                    if rng.bool() {
                        mem::forget(g);
                    }
                }
                // (a panic while the guard is alive)
                let g = s.get_guard(i);
                callback();
                drop(g);
            }
            10 => {
                let all: Vec<&S::Item> = (&*s).join().collect();
                let again: Vec<&S::Item> = (&*s, &*s).join().map(|(_, b)| b).collect();
                black_box(all.iter().chain(&again).map(|v| v.look()).fold(0, u64::wrapping_add));
            }
            11 => {
                let mut all: Vec<&mut S::Item> = (&mut *s).join().collect();
                stir(rng, &mut all);
            }
            12 => {
                let mut all: Vec<_> = s.guard().join().collect();
                for _ in 0..2 * all.len() {
                    let (a, b) = (rng.idx(all.len()), rng.idx(all.len()));
                    let v = all[a].get().look();
                    all[b].get_mut().edit(v);
                }
                let mut refs: Vec<&mut S::Item> = all.iter_mut().map(|g| g.get_mut()).collect();
                stir(rng, &mut refs);
                drop(refs);
                black_box(all.iter().map(|g| g.get().look()).fold(0, u64::wrapping_add));
            }
            13 => {
                let mut all = Vec::new();
                for (at, v, b, w) in (&bits, &mut *s, (&*other).maybe(), BitSetNot(&bits).maybe()).join() {
                    black_box(at as u64 + b.map_or(0, |b| b.look()) + w.unwrap_or(0) as u64);
                    all.push(v);
                }
                stir(rng, &mut all);
            }
            14 => {
                let mut all = Vec::new();
                let mut theirs = Vec::new();
                for ((a, b), i) in ((&mut *s, &mut *other), BitSetAll).join() {
                    all.push(a);
                    theirs.push(b);
                    black_box(i);
                }
                stir(rng, &mut all);
                stir(rng, &mut theirs);
            }
            15 => {
                let mut all: Vec<&mut S::Item> = Vec::new();
                for (v, _) in ((&mut *s).maybe(), &bits).join() {
                    all.extend(v);
                }
                stir(rng, &mut all);
            }
            16 => {
                // Stop half way, and go on using what was yielded.
                let mut it = (&mut *s).join();
                let mut all: Vec<&mut S::Item> = it.by_ref().take(2).collect();
                stir(rng, &mut all);
                if rng.bool() {
                    mem::forget(it);
                } else {
                    let mut rest: Vec<&mut S::Item> = it.collect();
                    all.append(&mut rest);
                    stir(rng, &mut all);
                }
            }
            17 => {
                for v in (&mut *s).join() {
                    v.edit(x);
                    callback();
                }
            }
            18 => {
                let old = mem::take(s);
                if rng.bool() {
                    *s = old;
                } else if rng.chance(1, 3) {
                    thread::scope(|sc| {
                        sc.spawn(move || drop(old));
                    });
                }
            }
            19 => {
                let mut o = MaskedStorage::<S>::default();
                for i in ix {
                    if rng.bool() {
                        o.insert(*i, S::Item::make(x));
                    }
                }
                mem::swap(s, &mut o);
                drop(o);
            }
            20 => {
                let it = JoinIter::new_unconstrained((&mut *s, BitSetAll).into_join_());
                for (v, i) in it {
                    v.edit(i as u64);
                }
                for (v, i) in (&mut *s, &bits).join_unconstrained() {
                    v.edit(i as u64);
                }
            }
            21 => {
                // No such index.
                black_box(s.get(x as u32 | 1 << 30).map(|v| v.look()));
                black_box(s.get_mut(u32::MAX).is_some() || s.get_guard(1 << 24).is_some() || s.remove(1 << 24).is_some());
                s.insert(*rng.pick(&[1 << 24, u32::MAX, 1 << 31]), S::Item::make(1));
            }
            22 => {
                for i in ix {
                    if bits.contains(*i) {
                        black_box(s.remove(*i).map(|v| v.look()));
                    }
                }
            }
            _ => {
                for i in ix {
                    if bits.contains(*i) {
                        s.insert(*i, S::Item::make(x));
                    }
                }
            }
        }
    });
}

trait IntoJoin_: Sized + goggles::IntoJoin {
    fn into_join_(self) -> Self::IntoJoin {
        self.into_join()
    }
}
impl<J: goggles::IntoJoin> IntoJoin_ for J {}

fn dense_ops<V: Val>(rng: &mut Rng, seen: &mut Seen, s: &mut MaskedStorage<DenseVecStorage<V>>) {
    seen.op(30);
    black_box(s.as_slice().iter().map(|v| v.look()).fold(0, u64::wrapping_add));
    let sl = s.as_mut_slice();
    if !sl.is_empty() {
        let (a, b) = (rng.idx(sl.len()), rng.idx(sl.len()));
        sl.swap(a, b);
        sl[a].edit(1);
        sl.sort_by_key(|v| v.look());
    }
    black_box(s.raw_storage().as_slice().len());
}

fn tracked_ops<S>(rng: &mut Rng, seen: &mut Seen, s: &mut MaskedStorage<S>, ix: &[u32])
where
    S: TrackedStorage + Default + Send,
    S::Item: Val,
{
    let kind = 40 + rng.below(8);
    seen.op(kind);
    let i = *rng.pick(ix);
    let bits = some_bits(rng, ix);
    let mut r2 = rng.fork();
    try_(seen, || {
        let rng = &mut r2;
        match kind {
            40 => {
                let on = rng.chance(3, 4);
                s.set_track_modified(on);
            }
            41 => {
                if rng.bool() {
                    s.clear_modified();
                }
                black_box((s.modified_indexes()).iter().count());
            }
            42 => {
                s.mark_modified(i);
                if let Some(g) = s.get_guard(i) {
                    g.mark_modified();
                }
            }
            43 => {
                let all: Vec<Option<&S::Item>> = s.modified().join().collect();
                s.mark_modified(i);
                black_box(all.iter().flatten().map(|v| v.look()).fold(0, u64::wrapping_add));
            }
            44 => {
                let mut all: Vec<&mut S::Item> = s.modified_mut().join().flatten().collect();
                stir(rng, &mut all);
            }
            45 => {
                let mut all: Vec<&mut S::Item> = (s.modified_mut(), &bits).join().filter_map(|x| x.0).collect();
                stir(rng, &mut all);
            }
            46 => {
                let mut all: Vec<&mut S::Item> = s.modified_mut().maybe().into_join_().join_unconstrained().take(200).flatten().flatten().collect();
                stir(rng, &mut all);
            }
            _ => s.mark_modified(*rng.pick(&[1 << 24, u32::MAX])),
        }
    });
}

fn storage<V: Val>(rng: &mut Rng, seen: &mut Seen, steps: u64, ix: &[u32], kind: u64) {
    let mut other = MaskedStorage::<VecStorage<Bx<9>>>::default();
    for i in ix {
        if rng.bool() {
            other.insert(*i, Bx::make(*i as u64));
        }
    }
    match kind {
        0 => {
            let mut s = MaskedStorage::<VecStorage<V>>::default();
            (0..steps).for_each(|_| raw_ops(rng, seen, &mut s, &mut other, ix));
            end(rng, seen, s);
        }
        1 => {
            let mut s = MaskedStorage::<DenseVecStorage<V>>::default();
            for _ in 0..steps {
                raw_ops(rng, seen, &mut s, &mut other, ix);
                if rng.chance(1, 4) {
                    dense_ops(rng, seen, &mut s);
                }
            }
            end(rng, seen, s);
        }
        _ => {
            let mut s = MaskedStorage::<HashMapStorage<V>>::default();
            (0..steps).for_each(|_| raw_ops(rng, seen, &mut s, &mut other, ix));
            end(rng, seen, s);
        }
    }
    end(rng, seen, other);
}

fn end<S: RawStorage>(rng: &mut Rng, seen: &mut Seen, s: MaskedStorage<S>) {
    if rng.bool() {
        arm(rng.below(6));
    }
    try_(seen, move || drop(s));
}

fn tracked<S>(rng: &mut Rng, seen: &mut Seen, steps: u64, ix: &[u32])
where
    S: TrackedStorage + Default + Send,
    S::Item: Val,
{
    let mut other = MaskedStorage::<VecStorage<Bx<9>>>::default();
    let mut s = MaskedStorage::<S>::default();
    for _ in 0..steps {
        if rng.chance(1, 3) {
            tracked_ops(rng, seen, &mut s, ix);
        } else {
            raw_ops(rng, seen, &mut s, &mut other, ix);
        }
    }
    end(rng, seen, s);
}

const IX: &[&[u32]] = &[&[0, 1, 2, 3, 4], &[0, 1, 5, 63, 64, 65, 130], &[3, 40, 41, 42, 200], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]];

fn storages(rng: &mut Rng, seen: &mut Seen, steps: u64) {
    for round in 0..steps.div_ceil(50) {
        let ix = *rng.pick(IX);
        let kind = round % 3;
        match rng.below(7) {
            0..=2 => storage::<Bx<0>>(rng, seen, 50, ix, kind),
            3 => storage::<Zs>(rng, seen, 50, ix, kind),
            4 => storage::<Al>(rng, seen, 50, ix, kind),
            5 => storage::<Bo>(rng, seen, 50, ix, kind),
            _ => storage::<String>(rng, seen, 50, ix, kind),
        }
    }
}

fn trackeds(rng: &mut Rng, seen: &mut Seen, steps: u64) {
    let ix = *rng.pick(IX);
    match rng.below(5) {
        0 => tracked::<Flagged<VecStorage<Bx<0>>>>(rng, seen, steps, ix),
        1 => tracked::<Flagged<DenseVecStorage<Bx<0>>>>(rng, seen, steps, ix),
        2 => tracked::<Flagged<HashMapStorage<String>>>(rng, seen, steps, ix),
        3 => tracked::<Flagged<VecStorage<Al>>>(rng, seen, steps, ix),
        _ => tracked::<Flagged<DenseVecStorage<Bo>>>(rng, seen, steps, ix),
    }
}

// ---------------------------------------------------------------------------------------------
// Entities

fn entities(rng: &mut Rng, seen: &mut Seen, steps: u64) {
    let mut a = Allocator::new();
    let mut known: Vec<Entity> = Vec::new();
    let mut killed = Vec::new();
    for _ in 0..steps {
        let kind = 60 + rng.below(9);
        seen.op(kind);
        let e = if known.is_empty() { None } else { Some(*rng.pick(&known)) };
        match (kind, e) {
            (60, _) => known.push(a.allocate()),
            (61, _) => known.push(a.allocate_atomic()),
            (62, Some(e)) => drop(black_box(a.kill(e))),
            (63, Some(e)) => drop(black_box(a.kill_atomic(e))),
            (64, Some(e)) => drop(black_box((a.is_alive(e), a.entity(e.index())))),
            (65, _) => drop(black_box((a.entity(u32::MAX), a.entity(1 << 24), a.entity(7), a.max_entity_count()))),
            (66, _) => {
                let all: Vec<Entity> = (&a).join().collect();
                let some: Vec<(Entity, u32)> = (&a, BitSetAll).join().collect();
                black_box((all, some, a.live_bitset().contains(1)));
            }
            (67, _) => a.merge_atomic(&mut killed),
            _ => {
                // From several threads.
                let n = 2;
                let made: Vec<Vec<Entity>> = thread::scope(|s| {
                    let hs: Vec<_> = (0..n)
                        .map(|t| {
                            let (a, known) = (&a, &known);
                            let mut rng = Rng::new(t + known.len() as u64);
                            s.spawn(move || {
                                let mut mine = Vec::new();
                                for _ in 0..4 {
                                    match rng.below(4) {
                                        0 => mine.push(a.allocate_atomic()),
                                        1 if !known.is_empty() => drop(black_box(a.kill_atomic(*rng.pick(known)))),
                                        2 if !mine.is_empty() => drop(black_box(a.is_alive(*rng.pick(&mine)))),
                                        _ => drop(black_box(a.join().take(8).count())),
                                    }
                                }
                                mine
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap()).collect()
                });
                known.extend(made.into_iter().flatten());
            }
        }
        if known.len() > 60 {
            known.drain(..20);
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Worlds

type C0 = Bx<0>;
type C1 = Bx<1>;
type C2 = Bx<2>;
impl Component for C0 {
    type Storage = VecStorage<Self>;
}
impl Component for C1 {
    type Storage = DenseVecStorage<Self>;
}
impl Component for C2 {
    type Storage = Flagged<HashMapStorage<Self>>;
}

macro_rules! comp {
    ($k:expr, $t:ident => $e:expr) => {
        match $k % 3 {
            0 => { type $t = C0; $e }
            1 => { type $t = C1; $e }
            _ => { type $t = C2; $e }
        }
    };
}

fn worlds(rng: &mut Rng, seen: &mut Seen, steps: u64) {
    let mut w = World::new();
    for k in 0..3 {
        comp!(k, T => { w.insert_component::<T>(); });
    }
    w.insert_resource(7u64);
    w.insert_resource(String::from("x"));
    let mut known: Vec<Entity> = vec![w.create_entity()];
    let mut set = AnyComponentSet::new();
    let mut cset = AnyCloneComponentSet::new();
    for _ in 0..steps {
        let kind = 80 + rng.below(24);
        seen.op(kind);
        let k = rng.below(3);
        let e = *rng.pick(&known);
        let x = rng.u64() >> 30;
        if rng.chance(1, 4) {
            arm(rng.below(5));
        }
        let mut r2 = rng.fork();
        try_(seen, || {
            let rng = &mut r2;
            match kind {
                80 => known.push(w.create_entity()),
                81 => known.push(w.entities().create()),
                82 => drop(w.delete_entity(e)),
                83 => drop(w.entities().delete(e)),
                84 => w.merge(),
                85..=87 => comp!(k, T => {
                    let mut c = w.write_component::<T>();
                    black_box(c.insert(e, T::make(x)).is_ok());
                    let v = c.get_or_insert_with(e, || { callback(); T::make(x) }).ok();
                    v.map(|v| v.edit(x));
                }),
                88 => comp!(k, T => {
                    let mut c = w.get_component_mut::<T>();
                    black_box(c.remove(e).ok().flatten().map(|v| v.look()));
                    black_box(c.get_or_default(e).ok().map(|v| v.look()));
                }),
                89 => comp!(k, T => {
                    let a = w.read_component::<T>();
                    let b = w.fetch::<(Entities, ReadComponent<T>)>();
                    let (r, s) = (a.get(e), b.1.get(e));
                    let all: Vec<_> = (&b.0, &a, &b.1).join().collect();
                    black_box(all.iter().map(|(_, a, b)| a.look() ^ b.look()).fold(0, u64::wrapping_add));
                    black_box(r.map(|v| v.look()) == s.map(|v| v.look()));
                }),
                90 => comp!(k, T => {
                    let ents = w.entities();
                    let mut c = w.fetch::<WriteComponent<T>>();
                    let mut all: Vec<&mut T> = (&ents, &mut c).join().map(|x| x.1).collect();
                    ents.create();
                    stir(rng, &mut all);
                    let mut g: Vec<_> = c.guard().join().collect();
                    g.iter_mut().for_each(|g| g.get_mut().edit(x));
                    if let Some(mut g) = c.get_guard(e) {
                        g.get_mut().edit(x);
                    }
                }),
                91 => {
                    let mut c = w.write_component::<C2>();
                    c.set_track_modified(rng.bool());
                    black_box(c.mark_modified(e).is_ok());
                    let mut all: Vec<&mut C2> = c.modified_mut().join().flatten().collect();
                    stir(rng, &mut all);
                    c.clear_modified();
                }
                92 => {
                    let mut c = w.write_component::<C1>();
                    c.as_mut_slice().reverse();
                    black_box(c.as_slice().iter().map(|v| v.look()).fold(0, u64::wrapping_add));
                }
                93 => comp!(k, T => drop(black_box(set.insert(T::make(x))))),
                94 => comp!(k, T => {
                    set.get_mut::<T>().map(|v| v.edit(x));
                    black_box(set.get::<T>().map(|v| v.look()));
                    black_box(set.remove::<T>().map(|v| v.look()));
                }),
                95 => {
                    let s = mem::take(&mut set);
                    black_box(s.insert_into_world(&mut w, e).is_ok());
                }
                96 => comp!(k, T => drop(black_box(cset.insert(T::make(x))))),
                97 => drop(black_box(cset.insert_into_world(&mut w, e))),
                98 => {
                    black_box(cset.clone_into_set(&mut set));
                    let mut o = AnyComponentSet::new();
                    o.insert(C0::make(x));
                    set.merge(o);
                }
                99 => comp!(k, T => {
                    let old = w.insert_component::<T>();
                    black_box(old.map(|s| (&s).join().count()));
                }),
                100 => comp!(k, T => {
                    if let Some(mut s) = w.remove_component::<T>() {
                        // (outside of any world)
                        let mut all: Vec<&mut T> = (&mut s).join().collect();
                        stir(rng, &mut all);
                    }
                    w.insert_component::<T>();
                }),
                101 => comp!(k, T => {
                    // Leak it.
                    if rng.bool() {
                        mem::forget(w.write_component::<T>());
                    } else {
                        mem::forget(w.read_component::<T>());
                    }
                    black_box(w.get_component_mut::<T>().get_mut(e).map(|v| v.look()));
                    w.insert_component::<T>();
                }),
                102 => {
                    let mut a = w.write_resource::<u64>();
                    let b = w.read_resource::<String>();
                    *a += b.len() as u64;
                    drop(a);
                    drop(w.fetch::<(ReadResource<u64>, WriteResource<String>)>());
                    drop(w.fetch::<(ReadResource<u64>, WriteResource<u64>)>());
                }
                _ => {
                    *w.get_resource_mut::<String>() = format!("{x}");
                    black_box(w.insert_resource::<String>("y".into()));
                    black_box(w.remove_resource::<u64>());
                    black_box(w.contains_resource::<u64>());
                    w.insert_resource(x);
                }
            }
        });
        if known.len() > 24 {
            known.drain(..8);
        }
        if known.is_empty() {
            known.push(w.create_entity());
        }
    }
    if rng.bool() {
        arm(rng.below(8));
    }
    try_(seen, move || drop(w));
}

fn sets(rng: &mut Rng, seen: &mut Seen, steps: u64) {
    let mut s = ResourceSet::new();
    for _ in 0..steps {
        let kind = 110 + rng.below(10);
        seen.op(kind);
        let x = rng.u64();
        if rng.chance(1, 4) {
            arm(rng.below(3));
        }
        try_(seen, || match kind {
            110..=111 => drop(black_box(s.insert(Bx::<0>::make(x)))),
            112 => drop(black_box(s.insert(format!("{x}")))),
            113 => drop(black_box(s.remove::<Bx<0>>())),
            114 => {
                let (a, b) = (s.borrow::<Bx<0>>(), s.borrow::<Bx<0>>());
                black_box(a.look() ^ b.look());
                drop(s.borrow_mut::<Bx<0>>());
            }
            115 => {
                let mut a = s.borrow_mut::<Bx<0>>();
                let mut b = s.borrow_mut::<String>();
                a.edit(b.len() as u64);
                b.push('y');
                drop(s.borrow::<Bx<0>>());
            }
            116 => s.get_mut::<Bx<0>>().edit(x),
            117 => {
                let (mut w, r) = s.fetch::<(Write<Bx<0>>, Read<String>)>();
                w.edit(r.len() as u64);
                black_box(w.look());
            }
            118 => drop(s.fetch::<(Read<Bx<0>>, Write<Bx<0>>)>()),
            _ => {
                s.insert(Cell::new(x));
                s.get_mut::<Cell<u64>>().set(1);
                black_box(s.borrow_mut::<Cell<u64>>().get());
                let mut m = MakeSync::new(Cell::new(x));
                m.get_mut().set(1);
                black_box((m.into_inner().get(), *MakeSync::new(x).get()));
                mem::forget(s.borrow_mut::<Cell<u64>>());
                black_box(s.get_mut::<Cell<u64>>().get());
                black_box(s.insert(Cell::new(x)));
            }
        });
    }
}

// ---------------------------------------------------------------------------------------------
// Threads

/// Several threads at once, begun together.
fn together(n: u64, f: impl Fn(u64) + Sync) {
    let b = Barrier::new(n as usize);
    thread::scope(|s| {
        for t in 0..n {
            let (b, f) = (&b, &f);
            s.spawn(move || {
                b.wait();
                f(t);
            });
        }
    });
}

fn shared_storages(rng: &mut Rng, seen: &mut Seen, steps: u64) {
    fn one<S>(rng: &mut Rng, seen: &mut Seen, steps: u64)
    where
        S: TrackedStorage + Default + Send + Sync,
        S::Item: Val,
    {
        let ix = *rng.pick(IX);
        let mut s = MaskedStorage::<S>::default();
        s.set_track_modified(true);
        for round in 0..steps {
            for i in ix {
                if rng.chance(2, 3) {
                    s.insert(*i, S::Item::make(round));
                }
            }
            seen.op(120 + round % 4);
            let salt = rng.u64();
            match round % 4 {
                // Readers, marking.
                0 => together(3, |t| {
                    let mut rng = Rng::new(salt ^ t);
                    for _ in 0..6 {
                        let i = *rng.pick(ix);
                        match rng.below(4) {
                            0 => s.mark_modified(i),
                            1 => drop(black_box(s.modified_indexes().contains(i))),
                            2 => drop(black_box((&s).join().map(|v| v.look()).fold(0, u64::wrapping_add))),
                            _ => drop(black_box(s.modified().join().flatten().map(|v| v.look()).fold(0, u64::wrapping_add))),
                        }
                    }
                }),
                // Distinct elements, dealt to threads.
                1 => {
                    let mut all: Vec<&mut S::Item> = (&mut s).join().collect();
                    let half = all.len() / 2;
                    let (a, b) = all.split_at_mut(half);
                    thread::scope(|sc| {
                        sc.spawn(|| a.iter_mut().for_each(|v| v.edit(salt)));
                        sc.spawn(|| b.iter_mut().for_each(|v| v.edit(!salt)));
                    });
                }
                // Guards, dealt to threads: they track.
                2 => {
                    let mut all: Vec<_> = s.guard().join().collect();
                    let half = all.len() / 2;
                    let (a, b) = all.split_at_mut(half);
                    thread::scope(|sc| {
                        for part in [a, b] {
                            sc.spawn(move || {
                                for g in part {
                                    black_box(g.get().look());
                                    g.get_mut().edit(salt);
                                    g.mark_modified();
                                }
                            });
                        }
                    });
                }
                // The iterator itself, in another thread.
                _ => {
                    let mut it = (&mut s).join();
                    let first = it.next();
                    thread::scope(|sc| {
                        sc.spawn(move || it.for_each(|v| v.edit(salt)));
                        if let Some(v) = first {
                            v.edit(salt);
                        }
                    });
                }
            }
            if rng.bool() {
                s.clear_modified();
            }
        }
    }
    match rng.below(3) {
        0 => one::<Flagged<VecStorage<Bx<0>>>>(rng, seen, steps),
        1 => one::<Flagged<DenseVecStorage<String>>>(rng, seen, steps),
        _ => one::<Flagged<HashMapStorage<Bx<0>>>>(rng, seen, steps),
    }
}

/// Nothing but the borrow flags orders the threads' accesses.
fn shared_sets(rng: &mut Rng, seen: &mut Seen, steps: u64) {
    let mut s = ResourceSet::new();
    s.insert(Bx::<0>::make(1));
    s.insert(Cell::new(5u64));
    s.insert(vec![1u64, 2, 3]);
    for _ in 0..steps.div_ceil(10) {
        seen.op(130);
        let salt = rng.u64();
        let got = AtomicU64::new(0);
        together(3, |t| {
            let mut rng = Rng::new(salt ^ t);
            for _ in 0..10 {
                let r = catch(|| match rng.below(6) {
                    0 => s.borrow_mut::<Bx<0>>().edit(t),
                    1 => drop(black_box(s.borrow::<Bx<0>>().look())),
                    2 => {
                        let c = s.borrow_mut::<Cell<u64>>();
                        c.set(c.get() + 1);
                    }
                    3 => {
                        let mut v = s.borrow_mut::<Vec<u64>>();
                        v.push(t);
                        if v.len() > 6 {
                            *v = Vec::new();
                        }
                    }
                    4 => {
                        let (mut a, b) = s.fetch::<(Write<Bx<0>>, Read<Vec<u64>>)>();
                        a.edit(b.len() as u64);
                    }
                    _ => {
                        // A borrow of one thread, ended by another.
                        let a = s.borrow_mut::<Bx<0>>();
                        thread::scope(|sc| {
                            sc.spawn(move || {
                                let mut a = a;
                                a.edit(3);
                            });
                        });
                    }
                });
                if r.is_ok() {
                    got.fetch_add(1, Ordering::Relaxed);
                }
                thread::yield_now();
            }
        });
        black_box(s.get_mut::<Bx<0>>().look());
        seen.caught += 30 - got.load(Ordering::Relaxed);
    }
}

fn shared_worlds(rng: &mut Rng, seen: &mut Seen, steps: u64) {
    let mut w = World::new();
    for k in 0..3 {
        comp!(k, T => { w.insert_component::<T>(); });
    }
    w.get_component_mut::<C2>().set_track_modified(true);
    w.insert_resource(3u64);
    let mut known: Vec<Entity> = (0..6).map(|_| w.create_entity()).collect();
    for round in 0..steps.div_ceil(10) {
        seen.op(140 + round % 2);
        let salt = rng.u64();
        {
            let (w, known) = (&w, &known);
            together(3, |t| {
                let mut rng = Rng::new(salt ^ t);
                for _ in 0..8 {
                    let e = *rng.pick(known);
                    let k = rng.below(3);
                    let r = catch(|| match rng.below(8) {
                        0 => {
                            let e = w.entities().create();
                            comp!(k, T => drop(black_box(w.write_component::<T>().insert(e, T::make(t)))));
                        }
                        1 => drop(w.entities().delete(e)),
                        2 => comp!(k, T => w.write_component::<T>().get_mut(e).into_iter().for_each(|v| v.edit(t))),
                        3 => comp!(k, T => drop(black_box(w.read_component::<T>().get(e).map(|v| v.look())))),
                        4 => comp!(k, T => {
                            let (e, mut c) = w.fetch::<(Entities, WriteComponent<T>)>();
                            (&e, &mut c).join().for_each(|(_, v)| v.edit(1));
                        }),
                        5 => {
                            let c = w.read_component::<C2>();
                            drop(c.mark_modified(e));
                            black_box(c.modified().join().flatten().map(|v| v.look()).fold(0, u64::wrapping_add));
                        }
                        6 => *w.write_resource::<u64>() += *w.fetch::<WriteResource<u64>>(),
                        _ => *w.write_resource::<u64>() += 1,
                    });
                    drop(black_box(r));
                    thread::yield_now();
                }
            });
        }
        w.merge();
        known = w.entities().into_all();
        while known.len() < 3 {
            known.push(w.create_entity());
        }
        known.truncate(12);
    }
}

trait All {
    fn into_all(self) -> Vec<Entity>;
}
impl All for Entities<'_> {
    fn into_all(self) -> Vec<Entity> {
        (&self).join().collect()
    }
}

// Systems.

struct Spawn;
impl Pool for Spawn {
    fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        thread::scope(|s| {
            let b = s.spawn(b);
            let a = a();
            (a, b.join().unwrap())
        })
    }
}

struct Edit<P> {
    read: Option<u64>,
    write: u64,
    state: Box<u64>,
    pool: std::marker::PhantomData<fn(&P)>,
}

#[derive(Debug)]
struct Oops;
impl goggles::SystemError for Oops {
    fn combine(self, _: Oops) -> Oops {
        Oops
    }
}

impl<'a, P: Pool> System<&'a World> for Edit<P> {
    type Resources = WorldResources;
    type Pool = P;
    type Error = Oops;
    fn check_resources(&self) -> Result<WorldResources, ResourceConflict> {
        let mut r = comp!(self.write, T => <WriteComponent<T> as FetchResources<World>>::check_resources())?;
        if let Some(k) = self.read {
            r.union(&comp!(k, T => <ReadComponent<T> as FetchResources<World>>::check_resources())?);
        }
        Ok(r)
    }
    fn run(&mut self, _: &P, w: &'a World) -> Result<(), Oops> {
        *self.state += 1;
        let e = w.entities();
        let new = e.create();
        comp!(self.write, T => {
            let mut c = w.write_component::<T>();
            drop(c.insert(new, T::make(*self.state)));
            match self.read {
                Some(k) => comp!(k, S => {
                    let d = w.read_component::<S>();
                    for (a, b) in (&mut c, &d).join() {
                        a.edit(b.look());
                    }
                }),
                None => (&e, &mut c).join().for_each(|(_, v)| v.edit(1)),
            }
        });
        for x in e.into_all().into_iter().skip(8) {
            drop(w.entities().delete(x));
        }
        if *self.state % 5 == 0 { Err(Oops) } else { Ok(()) }
    }
}

fn edit<P>(read: Option<u64>, write: u64) -> Edit<P> {
    Edit { read, write, state: Box::new(0), pool: std::marker::PhantomData }
}

fn systems<P: Pool + Sync + 'static>(rng: &mut Rng, seen: &mut Seen, steps: u64, pool: P) {
    let mut w = World::new();
    for k in 0..3 {
        comp!(k, T => { w.insert_component::<T>(); });
    }
    w.get_component_mut::<C2>().set_track_modified(true);
    for round in 0..steps.div_ceil(12) {
        seen.op(150 + round % 4);
        let r = match round % 4 {
            0 => {
                let mut s = par!(edit::<P>(None, 0), edit(None, 1), edit(None, 2));
                assert!(s.check_resources().is_ok());
                s.run(&pool, &w).and_then(|_| s.run(&pool, &w))
            }
            1 => {
                let mut s = seq!(par!(edit::<P>(Some(2), 0), edit(Some(2), 1)), edit(Some(0), 2), ParList(vec![edit(None, 0), edit(Some(1), 2)]));
                assert!(s.check_resources().is_ok());
                s.run(&pool, &w)
            }
            2 => {
                let l: Vec<Edit<P>> = (0..5).map(|_| edit(Some(rng.below(3)), rng.below(3))).map(|mut e| {
                    if e.read == Some(e.write) {
                        e.read = None;
                    }
                    e
                }).collect();
                let mut s: SeqList<ParList<Edit<P>>> = parallelize::<&'static World, _>(l);
                assert!(System::<&World>::check_resources(&s).is_ok());
                s.run(&pool, &w)
            }
            _ => {
                let mut s: Vec<Box<dyn for<'a> System<&'a World, Resources = WorldResources, Pool = P, Error = Oops> + Send>> = Vec::new();
                for k in 0..3 {
                    s.push(Box::new(edit::<P>(None, k)));
                }
                let mut s = ParList(s);
                s.run(&pool, &w)
            }
        };
        black_box(r.is_ok());
        w.merge();
    }
}

// Parallel joins.
fn par_joins(rng: &mut Rng, seen: &mut Seen, steps: u64) {
    let ix: Vec<u32> = (0..40).chain(60..70).chain([130, 200, 4100]).collect();
    let mut a = MaskedStorage::<VecStorage<Bx<0>>>::default();
    let mut b = MaskedStorage::<DenseVecStorage<String>>::default();
    let mut f = MaskedStorage::<Flagged<HashMapStorage<Bx<1>>>>::default();
    f.set_track_modified(true);
    for round in 0..steps.div_ceil(12) {
        for i in &ix {
            if rng.bool() {
                a.insert(*i, Bx::make(1));
            }
            if rng.bool() {
                b.insert(*i, String::make(1));
            }
            if rng.bool() {
                f.insert(*i, Bx::make(1));
            }
        }
        seen.op(160 + round % 6);
        match round % 6 {
            0 => (&mut a, &b).par_join().for_each(|(a, b)| a.edit(b.len() as u64)),
            1 => {
                let mut all: Vec<(&mut Bx<0>, Option<&mut String>)> = (&mut a, (&mut b).maybe()).par_join().collect();
                all.iter_mut().for_each(|(a, b)| {
                    a.edit(1);
                    if let Some(b) = b {
                        b.edit(1);
                    }
                });
            }
            2 => {
                (&mut f, &a).par_join().for_each(|(f, a)| f.edit(a.look()));
                black_box(f.modified_indexes().iter().count());
            }
            3 => {
                f.guard().par_join().for_each(|mut g| {
                    if g.get().look() % 2 == 0 {
                        g.get_mut().edit(1);
                    }
                });
            }
            4 => {
                let n = f.modified_mut().par_join().flatten().map(|v| { v.edit(1); v.look() }).reduce(|| 0, u64::wrapping_add);
                black_box(n);
                f.clear_modified();
            }
            _ => {
                let x = &a;
                drop(catch(|| (x, &mut b).par_join().for_each(|(a, b)| {
                    b.edit(a.look());
                    if b.len() == 3 {
                        panic!("consumer");
                    }
                })));
            }
        }
    }
}

fn main() {
    let mut part = String::new();
    let (mut seed, mut steps, mut rounds) = (1, 100, 1);
    let mut args = std::env::args().skip(1);
    while let Some(a) = args.next() {
        match a.as_str() {
            "--seed" => seed = args.next().unwrap().parse().unwrap(),
            "--steps" => steps = args.next().unwrap().parse().unwrap(),
            "--rounds" => rounds = args.next().unwrap().parse().unwrap(),
            _ => part = a,
        }
    }
    quiet_panics();
    let mut seen = Seen::default();
    let rng = &mut Rng::for_case(seed, &part, 0);
    let s = &mut seen;
    for _ in 0..rounds {
        match part.as_str() {
            "storages" => storages(rng, s, steps),
            "tracked" => trackeds(rng, s, steps),
            "entities" => entities(rng, s, steps),
            "worlds" => worlds(rng, s, steps),
            "sets" => sets(rng, s, steps),
            "shared-storages" => shared_storages(rng, s, steps),
            "shared-sets" => shared_sets(rng, s, steps),
            "shared-worlds" => shared_worlds(rng, s, steps),
            "systems-threads" => systems(rng, s, steps, Spawn),
            "systems-rayon" => systems(rng, s, steps, RayonPool),
            "systems-seq" => systems(rng, s, steps, SeqPool),
            "par-joins" => par_joins(rng, s, steps),
            _ => panic!("no such part"),
        }
    }
    let blown = BLOWN.with(|b| b.get());
    println!("{{\"part\":\"{part}\",\"seed\":{seed},\"operations\":{},\"kinds\":{},\"panics caught\":{},\"callbacks that panicked\":{blown}}}", seen.ops, seen.kinds.len(), seen.caught);
    let _ = Arc::new(0);
    let _ = RwResources::<u8>::default();
    let _ = rayon::current_num_threads;
}
