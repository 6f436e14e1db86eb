//! C07–C11: component storage monitors.
use std::{
    collections::{BTreeMap, BTreeSet, HashSet},
    sync::Mutex,
};

use gmon::{
    catch, current, ensure, ensure_eq,
    pats::{self, Pat},
    vals::{Al, Big, Val},
    Case, Ledger, Opts, Res, Runner, Tok, ZTok, INJECTED,
};
use goggles::{
    hibitset::{BitSet, BitSetAll, BitSetLike},
    par_join::ParJoinExt,
    rayon::{self, prelude::*},
    DenseStorage, DenseVecStorage, Flagged, HashMapStorage, Index, IntoJoinExt, MaskedStorage, RawStorage,
    TrackedStorage, VecStorage,
};

type M<S> = MaskedStorage<S>;
/// A number, the identity of a recorded value, and whether the value is intact.
type Seen = (u64, u64);

#[derive(Clone, Copy, Debug, PartialEq)]
enum GAct {
    Nothing,
    Look,
    Edit(u64),
    Mark,
}

struct Track<S: RawStorage> {
    tracking: fn(&M<S>) -> bool,
    set: fn(&mut M<S>, bool),
    mark: fn(&M<S>, Index),
    clear: fn(&mut M<S>),
    bits: fn(&M<S>) -> Vec<Index>,
    modified: fn(&M<S>) -> Vec<(Index, Option<Seen>)>,
    modified_mut: fn(&mut M<S>, usize, &mut dyn FnMut(Index) -> Option<u64>) -> Vec<(Index, Option<Seen>)>,
    gmark: fn(&mut M<S>, Index) -> bool,
    gjoin: fn(&mut M<S>, usize, &mut dyn FnMut(Index) -> GAct) -> Vec<(Index, Option<Seen>)>,
}

struct Dense<S: RawStorage> {
    slice: fn(&M<S>) -> &[S::Item],
    slice_mut: fn(&mut M<S>) -> &mut [S::Item],
}

fn seen<V: Val>(v: &V) -> Seen {
    assert!(v.sane(), "a value that was not stored intact was exposed");
    (v.num(), v.tok_id())
}

fn track<S>() -> Option<Track<S>>
where
    S: TrackedStorage,
    S::Item: Val,
{
    Some(Track {
        tracking: |s| {
            assert_eq!(s.tracking_modified(), s.raw_storage().tracking_modified(), "the raw storage has another tracking flag");
            s.tracking_modified()
        },
        set: |s, f| s.set_track_modified(f),
        mark: |s, i| s.mark_modified(i),
        clear: |s| s.clear_modified(),
        bits: |s| {
            let bits: Vec<Index> = s.modified_indexes().iter().collect();
            assert!(s.raw_storage().modified_indexes().iter().eq(bits.iter().copied()), "the raw storage has another modified set");
            bits
        },
        modified: |s| {
            let plain: Vec<Option<Seen>> = s.modified().join().map(|v| v.map(seen)).collect();
            let with: Vec<(Index, Option<Seen>)> = (s.modified_indexes(), s.modified())
                .join()
                .map(|(i, v)| (i, v.map(seen)))
                .collect();
            assert!(
                with.iter().map(|(_, v)| *v).eq(plain.iter().copied()),
                "two joins over the modified set differ"
            );
            with
        },
        modified_mut: |s, take, f| {
            (BitSetAll, s.modified_mut())
                .join()
                .take(take)
                .map(|(i, v)| {
                    (
                        i,
                        v.map(|v| {
                            let old = seen(v);
                            if let Some(n) = f(i) {
                                v.set(n)
                            }
                            old
                        }),
                    )
                })
                .collect()
        },
        gmark: |s, i| match s.get_guard(i) {
            Some(g) => {
                g.mark_modified();
                true
            }
            None => false,
        },
        gjoin: |s, take, f| {
            (BitSetAll, s.guard())
                .join()
                .take(take)
                .map(|(i, mut g)| {
                    (
                        i,
                        match f(i) {
                            GAct::Nothing => None,
                            GAct::Look => Some(seen(g.get())),
                            GAct::Edit(n) => {
                                let v = g.get_mut();
                                let old = seen(v);
                                v.set(n);
                                Some(old)
                            }
                            GAct::Mark => {
                                g.mark_modified();
                                Some(seen(g.get()))
                            }
                        },
                    )
                })
                .collect()
        },
    })
}

fn dense<S: DenseStorage>() -> Option<Dense<S>> {
    Some(Dense {
        slice: |s| {
            let (a, b) = (s.as_slice(), s.raw_storage().as_slice());
            assert!(std::ptr::eq(a, b), "the raw storage has another slice");
            a
        },
        slice_mut: |s| s.as_mut_slice(),
    })
}

/// Everything the interface of a storage offers, independent of its type.
trait Store {
    fn name(&self) -> &str;
    fn shown(&self, n: u64) -> u64;
    fn tells(&self) -> bool;
    fn recorded(&self) -> bool;
    fn insert(&mut self, i: Index, n: u64) -> (u64, Option<Seen>);
    fn remove(&mut self, i: Index) -> Option<Seen>;
    fn get(&self, i: Index) -> Option<Seen>;
    fn contains(&self, i: Index) -> bool;
    fn get_mut(&mut self, i: Index, n: Option<u64>) -> Option<Seen>;
    /// The value there, its identity, and how often the initialiser ran.
    fn get_or_insert(&mut self, i: Index, n: u64) -> (Seen, u32);
    fn get_or_insert_callback(&mut self, i: Index, n: u64) -> Seen;
    fn guard(&mut self, i: Index, a: GAct) -> Option<Option<Seen>>;
    fn join(&self) -> Vec<(Index, Seen)>;
    fn join_mut(&mut self, take: usize, f: &mut dyn FnMut(Index) -> Option<u64>) -> Vec<(Index, Seen)>;
    fn join_guard(&mut self, take: usize, f: &mut dyn FnMut(Index) -> GAct) -> Vec<(Index, Option<Seen>)>;
    fn maybe_mut(&mut self, sel: &BitSet, f: &mut dyn FnMut(Index) -> Option<u64>) -> Vec<(Index, Option<Seen>)>;
    fn par_mut(&mut self, f: &(dyn Fn(Index) -> Option<u64> + Sync)) -> Vec<(Index, Seen)>;
    /// Visits in parallel until the predicate holds somewhere; gives the indexes visited.
    fn par_any(&mut self, stop: &(dyn Fn(Index) -> bool + Sync)) -> Vec<Index>;
    fn mask(&self) -> Vec<Index>;
    fn slice(&self) -> Option<Vec<Seen>>;
    fn slice_set(&mut self, at: usize, n: u64) -> Seen;
    fn slice_swap(&mut self, a: usize, b: usize);
    /// Walk the whole mutable slice: the old values, some replaced.
    fn slice_edit(&mut self, f: &mut dyn FnMut(usize) -> Option<u64>) -> Vec<Seen>;
    fn tracked(&self) -> bool;
    fn tracking(&self) -> bool;
    fn set_tracking(&mut self, f: bool);
    fn mark(&self, i: Index);
    fn clear_modified(&mut self);
    fn modified_bits(&self) -> Vec<Index>;
    fn modified(&self) -> Vec<(Index, Option<Seen>)>;
    fn modified_mut(&mut self, take: usize, f: &mut dyn FnMut(Index) -> Option<u64>) -> Vec<(Index, Option<Seen>)>;
    fn renew(&mut self);
    fn relocate(&mut self);
    fn held(&self) -> BTreeSet<u64>;
    fn held_len(&self) -> usize;
    fn drop_held(&mut self);
    /// Drop everything; a panic passes through.
    fn finish(self: Box<Self>);
}

struct St<S: RawStorage> {
    name: String,
    s: Box<M<S>>,
    dense: Option<Dense<S>>,
    track: Option<Track<S>>,
    held: Vec<S::Item>,
}

impl<S> Store for St<S>
where
    S: RawStorage + Default + Send + Sync,
    S::Item: Val + Send + Sync,
{
    fn name(&self) -> &str {
        &self.name
    }
    fn shown(&self, n: u64) -> u64 {
        S::Item::shown(n)
    }
    fn tells(&self) -> bool {
        S::Item::TELLS
    }
    fn recorded(&self) -> bool {
        S::Item::NAME.starts_with("recorded")
    }
    fn insert(&mut self, i: Index, n: u64) -> (u64, Option<Seen>) {
        let v = S::Item::make(n);
        let id = v.tok_id();
        let old = self.s.insert(i, v);
        let r = old.as_ref().map(seen);
        self.held.extend(old);
        (id, r)
    }
    fn remove(&mut self, i: Index) -> Option<Seen> {
        let old = self.s.remove(i);
        let r = old.as_ref().map(seen);
        self.held.extend(old);
        r
    }
    fn get(&self, i: Index) -> Option<Seen> {
        let r = self.s.get(i).map(seen);
        if r.is_some() {
            // (the same by the raw storage, which may be asked as the index is occupied)
            assert_eq!(r, Some(seen(unsafe { self.s.raw_storage().get(i) })), "value in the raw storage");
        }
        r
    }
    fn contains(&self, i: Index) -> bool {
        self.s.contains(i)
    }
    fn get_mut(&mut self, i: Index, n: Option<u64>) -> Option<Seen> {
        self.s.get_mut(i).map(|v| {
            let old = seen(v);
            if let Some(n) = n {
                v.set(n)
            }
            old
        })
    }
    fn get_or_insert(&mut self, i: Index, n: u64) -> (Seen, u32) {
        let mut calls = 0;
        let v = self.s.get_or_insert_with(i, || {
            calls += 1;
            S::Item::make(n)
        });
        (seen(v), calls)
    }
    fn get_or_insert_callback(&mut self, i: Index, n: u64) -> Seen {
        seen(self.s.get_or_insert_with(i, || {
            let v = S::Item::make(n);
            current().callback("initialiser");
            v
        }))
    }
    fn guard(&mut self, i: Index, a: GAct) -> Option<Option<Seen>> {
        if a == GAct::Mark {
            return match &self.track {
                Some(t) => (t.gmark)(&mut self.s, i).then_some(None),
                None => self.s.get_guard(i).map(|_| None),
            };
        }
        self.s.get_guard(i).map(|mut g| match a {
            GAct::Look => Some(seen(g.get())),
            GAct::Edit(n) => {
                let v = g.get_mut();
                let old = seen(v);
                v.set(n);
                let now = seen(g.get());
                assert_eq!(now.0, S::Item::shown(n), "a guard does not show its own edit");
                Some(old)
            }
            _ => None,
        })
    }
    fn join(&self) -> Vec<(Index, Seen)> {
        (self.s.mask(), &*self.s).join().map(|(i, v)| (i, seen(v))).collect()
    }
    fn join_mut(&mut self, take: usize, f: &mut dyn FnMut(Index) -> Option<u64>) -> Vec<(Index, Seen)> {
        (BitSetAll, &mut *self.s)
            .join()
            .take(take)
            .map(|(i, v)| {
                let old = seen(v);
                if let Some(n) = f(i) {
                    v.set(n)
                }
                (i, old)
            })
            .collect()
    }
    fn join_guard(&mut self, take: usize, f: &mut dyn FnMut(Index) -> GAct) -> Vec<(Index, Option<Seen>)> {
        if let Some(t) = &self.track {
            return (t.gjoin)(&mut self.s, take, f);
        }
        (BitSetAll, self.s.guard())
            .join()
            .take(take)
            .map(|(i, mut g)| {
                (
                    i,
                    match f(i) {
                        GAct::Nothing => None,
                        GAct::Edit(n) => {
                            let v = g.get_mut();
                            let old = seen(v);
                            v.set(n);
                            Some(old)
                        }
                        _ => Some(seen(g.get())),
                    },
                )
            })
            .collect()
    }
    fn maybe_mut(&mut self, sel: &BitSet, f: &mut dyn FnMut(Index) -> Option<u64>) -> Vec<(Index, Option<Seen>)> {
        (sel, (&mut *self.s).maybe())
            .join()
            .map(|(i, v)| {
                (
                    i,
                    v.map(|v| {
                        let old = seen(v);
                        if let Some(n) = f(i) {
                            v.set(n)
                        }
                        old
                    }),
                )
            })
            .collect()
    }
    fn par_mut(&mut self, f: &(dyn Fn(Index) -> Option<u64> + Sync)) -> Vec<(Index, Seen)> {
        (&BitSetAll, &mut *self.s)
            .par_join()
            .map(|(i, v)| {
                let old = seen(v);
                if let Some(n) = f(i) {
                    v.set(n)
                }
                (i, old)
            })
            .collect()
    }
    fn par_any(&mut self, stop: &(dyn Fn(Index) -> bool + Sync)) -> Vec<Index> {
        let visited = Mutex::new(Vec::new());
        let _ = (&BitSetAll, &mut *self.s).par_join().any(|(i, v)| {
            seen(v);
            visited.lock().unwrap().push(i);
            stop(i)
        });
        visited.into_inner().unwrap()
    }
    fn mask(&self) -> Vec<Index> {
        self.s.mask().iter().collect()
    }
    fn slice(&self) -> Option<Vec<Seen>> {
        self.dense
            .as_ref()
            .map(|d| (d.slice)(&self.s).iter().map(seen).collect())
    }
    fn slice_set(&mut self, at: usize, n: u64) -> Seen {
        let v = &mut (self.dense.as_ref().unwrap().slice_mut)(&mut self.s)[at];
        let old = seen(v);
        v.set(n);
        old
    }
    fn slice_swap(&mut self, a: usize, b: usize) {
        (self.dense.as_ref().unwrap().slice_mut)(&mut self.s).swap(a, b);
    }
    fn slice_edit(&mut self, f: &mut dyn FnMut(usize) -> Option<u64>) -> Vec<Seen> {
        let all = (self.dense.as_ref().unwrap().slice_mut)(&mut self.s);
        all.iter_mut()
            .enumerate()
            .map(|(at, v)| {
                let old = seen(v);
                if let Some(n) = f(at) {
                    v.set(n)
                }
                old
            })
            .collect()
    }
    fn tracked(&self) -> bool {
        self.track.is_some()
    }
    fn tracking(&self) -> bool {
        (self.track.as_ref().unwrap().tracking)(&self.s)
    }
    fn set_tracking(&mut self, f: bool) {
        (self.track.as_ref().unwrap().set)(&mut self.s, f)
    }
    fn mark(&self, i: Index) {
        (self.track.as_ref().unwrap().mark)(&self.s, i)
    }
    fn clear_modified(&mut self) {
        (self.track.as_ref().unwrap().clear)(&mut self.s)
    }
    fn modified_bits(&self) -> Vec<Index> {
        (self.track.as_ref().unwrap().bits)(&self.s)
    }
    fn modified(&self) -> Vec<(Index, Option<Seen>)> {
        (self.track.as_ref().unwrap().modified)(&self.s)
    }
    fn modified_mut(&mut self, take: usize, f: &mut dyn FnMut(Index) -> Option<u64>) -> Vec<(Index, Option<Seen>)> {
        (self.track.as_ref().unwrap().modified_mut)(&mut self.s, take, f)
    }
    fn renew(&mut self) {
        drop(std::mem::take(&mut *self.s));
    }
    fn relocate(&mut self) {
        let s = std::mem::take(&mut *self.s);
        let moved = Box::new((1u64, s));
        self.s = Box::new(moved.1);
    }
    fn held(&self) -> BTreeSet<u64> {
        self.held.iter().map(|v| v.tok_id()).collect()
    }
    fn held_len(&self) -> usize {
        self.held.len()
    }
    fn drop_held(&mut self) {
        while let Some(v) = self.held.pop() {
            drop(v);
        }
    }
    fn finish(self: Box<Self>) {
        let St { s, held, .. } = *self;
        drop(held);
        drop(*s);
    }
}

// ---------------------------------------------------------------------------------------------
// Raw storages of the user

thread_local! {
    static PROTOCOL: Mutex<(u64, Option<String>)> = const { Mutex::new((0, None)) };
}

/// Watches how the raw storage under it is used.
struct Spy<S> {
    inner: S,
    occupied: Mutex<HashSet<Index>>,
    owner: std::thread::ThreadId,
}

impl<S: Default> Default for Spy<S> {
    fn default() -> Self {
        Spy {
            inner: S::default(),
            occupied: Mutex::default(),
            owner: std::thread::current().id(),
        }
    }
}

impl<S> Spy<S> {
    fn demand(&self, i: Index, occupied: bool, what: &str) {
        PROTOCOL.with(|p| p.lock().unwrap().0 += 1);
        let is = self.occupied.lock().unwrap().contains(&i);
        if is != occupied {
            let msg = format!("the raw storage was asked to {what} index {i}, which is occupied = {is}");
            if std::thread::current().id() == self.owner {
                PROTOCOL.with(|p| p.lock().unwrap().1.get_or_insert(msg.clone()).len());
            }
            // Going on would be undefined behaviour.
            panic!("{msg}");
        }
    }
}

impl<S: RawStorage> RawStorage for Spy<S> {
    type Item = S::Item;
    unsafe fn get(&self, i: Index) -> &S::Item {
        self.demand(i, true, "read");
        self.inner.get(i)
    }
    unsafe fn get_mut(&self, i: Index) -> &mut S::Item {
        self.demand(i, true, "mutably access");
        self.inner.get_mut(i)
    }
    unsafe fn insert(&mut self, i: Index, v: S::Item) {
        self.demand(i, false, "insert at");
        self.occupied.lock().unwrap().insert(i);
        self.inner.insert(i, v)
    }
    unsafe fn remove(&mut self, i: Index) -> S::Item {
        self.demand(i, true, "remove from");
        self.occupied.lock().unwrap().remove(&i);
        self.inner.remove(i)
    }
}

impl<S: TrackedStorage> TrackedStorage for Spy<S> {
    fn set_track_modified(&mut self, flag: bool) {
        self.inner.set_track_modified(flag)
    }
    fn tracking_modified(&self) -> bool {
        self.inner.tracking_modified()
    }
    fn mark_modified(&self, i: Index) {
        self.inner.mark_modified(i)
    }
    fn modified_indexes(&self) -> &goggles::tracked::ModifiedBitSet {
        self.inner.modified_indexes()
    }
    fn clear_modified(&mut self) {
        self.inner.clear_modified()
    }
}

impl<S: DenseStorage> DenseStorage for Spy<S> {
    fn as_slice(&self) -> &[S::Item] {
        self.inner.as_slice()
    }
    fn as_mut_slice(&mut self) -> &mut [S::Item] {
        self.inner.as_mut_slice()
    }
}

/// A raw storage that may refuse (by panicking) to store or hand out a value.
struct Faulty<S>(S, &'static gmon::Table);

impl<S: Default> Default for Faulty<S> {
    fn default() -> Self {
        Faulty(S::default(), current())
    }
}

impl<S: RawStorage> RawStorage for Faulty<S> {
    type Item = S::Item;
    unsafe fn get(&self, i: Index) -> &S::Item {
        self.0.get(i)
    }
    unsafe fn get_mut(&self, i: Index) -> &mut S::Item {
        self.1.callback("raw get_mut");
        self.0.get_mut(i)
    }
    unsafe fn insert(&mut self, i: Index, v: S::Item) {
        self.1.callback("raw insert");
        self.0.insert(i, v)
    }
    unsafe fn remove(&mut self, i: Index) -> S::Item {
        self.0.remove(i)
    }
}

// ---------------------------------------------------------------------------------------------
// The kinds of storage

type Maker = fn() -> Box<dyn Store>;

struct Kind {
    make: Maker,
    /// Largest index to use: plain vectors of big values must not grow to their full range.
    cap: Index,
}

fn st<S>(kind: &str, dense: Option<Dense<S>>, track: Option<Track<S>>) -> Box<dyn Store>
where
    S: RawStorage + Default + Send + Sync + 'static,
    S::Item: Val + Send + Sync,
{
    Box::new(St::<S> {
        name: format!("{kind} of {}", S::Item::NAME),
        s: Box::new(M::default()),
        dense,
        track,
        held: Vec::new(),
    })
}

macro_rules! plain {
    ($v:ident, $($t:ty),*) => {$(
        $v.push(Kind { make: || st::<VecStorage<$t>>("vector", None, None), cap: if std::mem::size_of::<$t>() > 64 { 300_000 } else { pats::LIMIT } });
        $v.push(Kind { make: || st::<DenseVecStorage<$t>>("dense", dense(), None), cap: pats::LIMIT });
        $v.push(Kind { make: || st::<HashMapStorage<$t>>("hash map", None, None), cap: pats::LIMIT });
    )*};
}

macro_rules! tracked {
    ($v:ident, $($t:ty),*) => {$(
        $v.push(Kind { make: || st::<Flagged<VecStorage<$t>>>("tracked vector", None, track()), cap: if std::mem::size_of::<$t>() > 64 { 300_000 } else { pats::LIMIT } });
        $v.push(Kind { make: || st::<Flagged<DenseVecStorage<$t>>>("tracked dense", None, track()), cap: pats::LIMIT });
        $v.push(Kind { make: || st::<Flagged<HashMapStorage<$t>>>("tracked hash map", None, track()), cap: pats::LIMIT });
    )*};
}

fn kinds(id: &str) -> Vec<Kind> {
    let mut v: Vec<Kind> = Vec::new();
    match id {
        "C07" => {
            plain!(v, u64, Box<u64>, String, Big, Al, (u8, u16), (), Tok, Option<Box<Tok>>, ZTok);
            tracked!(v, u64, String, (), Tok);
            // Twice, so that a fair share of the cases watches the raw storage.
            for _ in 0..2 {
                v.push(Kind { make: || st::<Spy<VecStorage<u64>>>("watched vector", None, None), cap: pats::LIMIT });
                v.push(Kind { make: || st::<Spy<DenseVecStorage<u64>>>("watched dense", dense(), None), cap: pats::LIMIT });
                v.push(Kind { make: || st::<Spy<HashMapStorage<Tok>>>("watched hash map", None, None), cap: pats::LIMIT });
                v.push(Kind { make: || st::<Flagged<Spy<VecStorage<u64>>>>("tracked watched vector", None, track()), cap: pats::LIMIT });
                v.push(Kind { make: || st::<Spy<Flagged<DenseVecStorage<u64>>>>("watched tracked dense", None, track()), cap: pats::LIMIT });
            }
        }
        "C08" => {
            plain!(v, Tok, Option<Box<Tok>>, ZTok);
            tracked!(v, Tok, ZTok);
        }
        "C09" => {
            plain!(v, Tok, Option<Box<Tok>>);
            tracked!(v, Tok);
            v.push(Kind { make: || st::<Faulty<VecStorage<Tok>>>("faulty vector", None, None), cap: pats::LIMIT });
            v.push(Kind { make: || st::<Faulty<DenseVecStorage<Tok>>>("faulty dense", None, None), cap: pats::LIMIT });
            v.push(Kind { make: || st::<Faulty<HashMapStorage<Tok>>>("faulty hash map", None, None), cap: pats::LIMIT });
            v.push(Kind { make: || st::<Flagged<Faulty<VecStorage<Tok>>>>("tracked faulty vector", None, track()), cap: pats::LIMIT });
            v.push(Kind { make: || st::<Faulty<Flagged<DenseVecStorage<Tok>>>>("faulty tracked dense", None, None), cap: pats::LIMIT });
        }
        "C10" => {
            macro_rules! d {
                ($($t:ty),*) => {$(
                    v.push(Kind { make: || st::<DenseVecStorage<$t>>("dense", dense(), None), cap: pats::LIMIT });
                )*};
            }
            d!(u64, Box<u64>, String, Big, Al, (u8, u16), (), Tok, Option<Box<Tok>>, ZTok);
            v.push(Kind { make: || st::<Spy<DenseVecStorage<u64>>>("watched dense", dense(), None), cap: pats::LIMIT });
        }
        "C11" => {
            tracked!(v, u64, String, Al, (), Tok);
            v.push(Kind { make: || st::<Spy<Flagged<VecStorage<u64>>>>("wrapped tracked vector", None, track()), cap: pats::LIMIT });
            v.push(Kind { make: || st::<Flagged<Flagged<DenseVecStorage<u64>>>>("twice tracked dense", None, track()), cap: pats::LIMIT });
        }
        _ => panic!("unknown property {id}"),
    }
    v
}

// ---------------------------------------------------------------------------------------------
// The model

#[derive(Copy, Clone, Default)]
struct Focus {
    map: bool,
    drops: bool,
    dense: bool,
    track: bool,
}

struct Sim<'l> {
    s: Option<Box<dyn Store>>,
    f: Focus,
    m: BTreeMap<Index, Seen>,
    tracking: bool,
    modified: BTreeSet<Index>,
    ledger: &'l Ledger,
    next: u64,
    ztoks: bool,
}

impl<'l> Sim<'l> {
    fn s(&mut self) -> &mut dyn Store {
        &mut **self.s.as_mut().unwrap()
    }
    fn r(&self) -> &dyn Store {
        &**self.s.as_ref().unwrap()
    }
    fn num(&mut self) -> u64 {
        self.next += 1;
        self.next
    }
    fn auto(&mut self, i: Index) {
        if self.tracking {
            self.modified.insert(i);
        }
    }

    /// Compare a result, in the focus that is about contents.
    fn same<T: PartialEq + std::fmt::Debug>(&self, got: T, want: T, what: &str) -> Res {
        if self.f.map || self.f.dense {
            ensure_eq!(got, want, "{}: {what}", self.r().name());
        }
        Ok(())
    }

    fn insert(&mut self, c: &mut Case, i: Index) -> Res {
        let n = self.num();
        let had = self.m.contains_key(&i);
        c.op(if had { "replace" } else { "insert" }, i as u64, n);
        let (id, old) = self.s().insert(i, n);
        let shown = self.r().shown(n);
        let was = self.m.insert(i, (shown, id));
        self.auto(i);
        self.same(old, was, &format!("value replaced by an insertion at {i}"))
    }

    fn remove(&mut self, c: &mut Case, i: Index) -> Res {
        c.op("remove", i as u64, 0);
        let old = self.s().remove(i);
        let was = self.m.remove(&i);
        if was.is_some() {
            self.auto(i);
        }
        self.same(old, was, &format!("value removed from {i}"))
    }

    fn edit_choice(&mut self, c: &mut Case) -> BTreeMap<Index, u64> {
        let keys: Vec<Index> = self.m.keys().copied().collect();
        let mut ch = BTreeMap::new();
        let (a, b) = *c.rng.pick(&[(1, 1), (1, 2), (1, 8), (0, 1)]);
        for k in keys {
            if c.rng.chance(a, b) {
                let n = self.num();
                ch.insert(k, n);
            }
        }
        ch
    }

    fn apply(&mut self, ch: &BTreeMap<Index, u64>, visited: impl Iterator<Item = Index>) {
        for i in visited {
            if let Some(n) = ch.get(&i) {
                let shown = self.r().shown(*n);
                if let Some(v) = self.m.get_mut(&i) {
                    v.0 = shown;
                }
            }
        }
    }

    fn step(&mut self, c: &mut Case, u: &[Index], cap: Index) -> Res {
        let i = if c.rng.chance(1, 12) { pats::outside(&mut c.rng, u, cap) } else { *c.rng.pick(u) };
        let big = self.m.len() > 300;
        match c.rng.below(if self.f.track { 44 } else { 36 }) {
            0..=7 => self.insert(c, i)?,
            8..=12 => self.remove(c, i)?,
            13..=14 => {
                let n = if c.rng.chance(2, 3) { Some(self.num()) } else { None };
                c.op("get_mut", i as u64, n.is_some() as u64);
                let old = self.s().get_mut(i, n);
                let was = self.m.get(&i).copied();
                if was.is_some() {
                    self.auto(i);
                    if let Some(n) = n {
                        let shown = self.r().shown(n);
                        self.m.get_mut(&i).unwrap().0 = shown;
                    }
                }
                self.same(old, was, &format!("mutable access at {i}"))?;
            }
            15..=17 => {
                let n = self.num();
                c.op("get_or_insert_with", i as u64, n);
                let (v, calls) = self.s().get_or_insert(i, n);
                let shown = self.r().shown(n);
                let was = self.m.get(&i).copied();
                self.auto(i);
                match was {
                    Some(was) => {
                        self.same(v, was, &format!("existing value of get_or_insert_with at {i}"))?;
                        self.same(calls, 0, &format!("calls of the initialiser for the occupied {i}"))?;
                    }
                    None => {
                        self.m.insert(i, (shown, v.1));
                        self.same(v.0, shown, &format!("new value of get_or_insert_with at {i}"))?;
                        self.same(calls, 1, &format!("calls of the initialiser for the empty {i}"))?;
                    }
                }
            }
            18..=19 => {
                let a = match c.rng.below(4) {
                    0 => GAct::Nothing,
                    1 => GAct::Look,
                    2 => GAct::Mark,
                    _ => GAct::Edit(self.num()),
                };
                c.op("guard", i as u64, matches!(a, GAct::Edit(_)) as u64);
                let got = self.s().guard(i, a);
                let was = self.m.get(&i).copied();
                self.same(got.is_some(), was.is_some(), &format!("presence of a guard at {i}"))?;
                if let Some(was) = was {
                    match a {
                        GAct::Look => self.same(got, Some(Some(was)), &format!("value through a guard at {i}"))?,
                        GAct::Edit(n) => {
                            self.same(got, Some(Some(was)), &format!("value through a guard at {i}"))?;
                            let shown = self.r().shown(n);
                            self.m.get_mut(&i).unwrap().0 = shown;
                            self.auto(i);
                        }
                        GAct::Mark => {
                            if self.r().tracked() {
                                self.modified.insert(i);
                            }
                        }
                        GAct::Nothing => {}
                    }
                }
            }
            20..=21 => {
                let ch = self.edit_choice(c);
                let take = if c.rng.bool() { usize::MAX } else { c.rng.idx(self.m.len() + 1) };
                c.op("join mutably", take.min(9999) as u64, ch.len() as u64);
                let got = self.s().join_mut(take, &mut |i| ch.get(&i).copied());
                let want: Vec<(Index, Seen)> = self.m.iter().take(take).map(|(i, v)| (*i, *v)).collect();
                for (i, _) in &want {
                    self.auto(*i);
                }
                self.apply(&ch, want.iter().map(|w| w.0));
                self.same(got, want, "items of a mutable join")?;
            }
            22 => {
                let keys: Vec<Index> = self.m.keys().copied().collect();
                let mut acts: BTreeMap<Index, GAct> = BTreeMap::new();
                for k in keys {
                    let a = match c.rng.below(4) {
                        0 => GAct::Nothing,
                        1 => GAct::Look,
                        2 => GAct::Mark,
                        _ => GAct::Edit(self.num()),
                    };
                    acts.insert(k, a);
                }
                let take = if c.rng.bool() { usize::MAX } else { c.rng.idx(self.m.len() + 1) };
                c.op("guarded join", take.min(9999) as u64, 0);
                let got = self
                    .s()
                    .join_guard(take, &mut |i| acts.get(&i).copied().unwrap_or(GAct::Nothing));
                let want: Vec<(Index, Option<Seen>)> = self
                    .m
                    .iter()
                    .take(take)
                    .map(|(i, v)| (*i, if acts[i] == GAct::Nothing { None } else { Some(*v) }))
                    .collect();
                for (i, _) in &want {
                    match acts[i] {
                        GAct::Edit(n) => {
                            let shown = self.r().shown(n);
                            self.m.get_mut(i).unwrap().0 = shown;
                            self.auto(*i);
                        }
                        GAct::Mark if self.r().tracked() => {
                            self.modified.insert(*i);
                        }
                        _ => {}
                    }
                }
                self.same(got, want, "items of a guarded join")?;
            }
            23 => {
                let mut sel = BitSet::new();
                let mut idx = BTreeSet::new();
                for i in u {
                    if c.rng.chance(1, 3) {
                        sel.add(*i);
                        idx.insert(*i);
                    }
                }
                let ch = self.edit_choice(c);
                c.op("optional join", idx.len() as u64, ch.len() as u64);
                let got = self.s().maybe_mut(&sel, &mut |i| ch.get(&i).copied());
                let want: Vec<(Index, Option<Seen>)> =
                    idx.iter().map(|i| (*i, self.m.get(i).copied())).collect();
                let hit: Vec<Index> = want.iter().filter(|w| w.1.is_some()).map(|w| w.0).collect();
                for i in &hit {
                    self.auto(*i);
                }
                self.apply(&ch, hit.into_iter());
                self.same(got, want, "items of an optional mutable join")?;
            }
            24 => {
                let ch = self.edit_choice(c);
                c.op("parallel join mutably", 0, ch.len() as u64);
                let got = self.s().par_mut(&|i| ch.get(&i).copied());
                let want: Vec<(Index, Seen)> = self.m.iter().map(|(i, v)| (*i, *v)).collect();
                for (i, _) in &want {
                    self.auto(*i);
                }
                self.apply(&ch, want.iter().map(|w| w.0));
                self.same(got, want, "items of a parallel mutable join")?;
            }
            25 => {
                let stop: BTreeSet<Index> = u.iter().copied().filter(|_| c.rng.chance(1, 10)).collect();
                c.op("parallel search mutably", stop.len() as u64, 0);
                let got = self.s().par_any(&|i| stop.contains(&i));
                for i in &got {
                    if self.m.contains_key(i) {
                        self.auto(*i);
                    }
                }
                if self.f.map {
                    for i in &got {
                        ensure!(self.m.contains_key(i), "a parallel join visited the empty index {i}");
                    }
                    let set: BTreeSet<_> = got.iter().collect();
                    ensure_eq!(set.len(), got.len(), "a parallel join visited an index twice");
                }
            }
            26 => {
                // Fill upwards, downwards or in random order.
                let mut v: Vec<Index> = u.to_vec();
                match c.rng.below(3) {
                    0 => {}
                    1 => v.reverse(),
                    _ => c.rng.shuffle(&mut v),
                }
                let n = c.rng.idx(v.len()) + 1;
                for i in v.into_iter().take(n.min(120)) {
                    self.insert(c, i)?;
                }
            }
            27 => {
                let mut v: Vec<Index> = self.m.keys().copied().collect();
                match c.rng.below(3) {
                    0 => {}
                    1 => v.reverse(),
                    _ => c.rng.shuffle(&mut v),
                }
                let n = c.rng.idx(v.len() + 1);
                for i in v.into_iter().take(n) {
                    self.remove(c, i)?;
                }
            }
            28 if c.rng.chance(1, 4) => {
                c.op("drop and start again", self.m.len() as u64, 0);
                self.s().renew();
                self.m.clear();
                self.modified.clear();
                self.tracking = false;
            }
            29 => {
                c.op("move", 0, 0);
                self.s().relocate();
            }
            30..=31 => {
                c.op("drop returned values", self.r().held_len() as u64, 0);
                self.s().drop_held();
            }
            32..=35 if self.r().slice().is_some() => {
                let n = self.r().slice().unwrap().len();
                if self.f.dense {
                    ensure_eq!(n, self.m.len(), "length of the slice of a dense storage");
                }
                if n > 0 {
                    let at = c.rng.idx(n);
                    if c.rng.chance(2, 3) {
                        let v = self.num();
                        c.op("edit through the slice", at as u64, v);
                        let old = self.s().slice_set(at, v);
                        let shown = self.r().shown(v);
                        if self.r().tells() {
                            let hit: Vec<Index> =
                                self.m.iter().filter(|(_, s)| **s == old).map(|(i, _)| *i).collect();
                            if self.f.dense {
                                ensure_eq!(hit.len(), 1, "indexes holding the value {old:?} found in the slice");
                            }
                            for i in hit {
                                self.m.get_mut(&i).unwrap().0 = shown;
                            }
                        } else {
                            // Values cannot be told apart: take what lookups say, the slice is compared below.
                            let keys: Vec<Index> = self.m.keys().copied().collect();
                            let now: Vec<Option<Seen>> = keys.iter().map(|i| self.r().get(*i)).collect();
                            let mut changed = 0;
                            for (i, v) in keys.iter().zip(now) {
                                if let Some(v) = v {
                                    changed += (self.m[i] != v) as u32;
                                    self.m.insert(*i, v);
                                }
                            }
                            if self.f.dense {
                                ensure!(changed <= 1, "one edit through the slice changed {changed} values");
                            }
                        }
                    } else {
                        // Swapping two elements of the slice swaps the values of two indexes.
                        let b = c.rng.idx(n);
                        c.op("swap in the slice", at as u64, b as u64);
                        let sl = self.r().slice().unwrap();
                        let (va, vb) = (sl[at], sl[b]);
                        self.s().slice_swap(at, b);
                        if self.r().tells() {
                            let ia = self.m.iter().find(|(_, s)| **s == va).map(|x| *x.0);
                            let ib = self.m.iter().find(|(_, s)| **s == vb).map(|x| *x.0);
                            if let (Some(ia), Some(ib)) = (ia, ib) {
                                self.m.insert(ia, vb);
                                self.m.insert(ib, va);
                            }
                        } else {
                            let keys: Vec<Index> = self.m.keys().copied().collect();
                            for i in keys {
                                if let Some(v) = self.r().get(i) {
                                    self.m.insert(i, v);
                                }
                            }
                        }
                    }
                }
            }
            36..=37 => {
                let on = c.rng.chance(2, 3);
                c.op("set tracking", on as u64, 0);
                self.s().set_tracking(on);
                self.tracking = on;
            }
            38 => {
                c.op("clear modified", 0, 0);
                self.s().clear_modified();
                self.modified.clear();
            }
            39 => {
                c.op("mark by hand", i as u64, 0);
                self.r().mark(i);
                self.modified.insert(i);
            }
            40..=43 => {
                let ch = self.edit_choice(c);
                let take = if c.rng.bool() { usize::MAX } else { c.rng.idx(self.modified.len() + 1) };
                c.op("join modified mutably", take.min(9999) as u64, 0);
                let got = self.s().modified_mut(take, &mut |i| ch.get(&i).copied());
                let want: Vec<(Index, Option<Seen>)> = self
                    .modified
                    .iter()
                    .take(take)
                    .map(|i| (*i, self.m.get(i).copied()))
                    .collect();
                self.apply(&ch, want.iter().filter(|w| w.1.is_some()).map(|w| w.0));
                if self.f.track {
                    ensure_eq!(got, want, "items of a mutable join over the modified set");
                }
            }
            _ => {
                // Read-only operations, which must change nothing (the contents are compared below).
                c.op("read", i as u64, 0);
                let got = self.r().get(i);
                self.same(got, self.m.get(&i).copied(), &format!("value at {i}"))?;
                if !big {
                    let _ = self.r().join();
                }
            }
        }
        Ok(())
    }

    fn check(&mut self, c: &mut Case, u: &[Index], cap: Index, full: bool) -> Res {
        let name = self.r().name().to_string();
        c.count("states compared", 1);
        c.max("most values stored", self.m.len() as u64);
        if self.f.map || self.f.dense {
            if full {
                let keys: Vec<Index> = self.m.keys().copied().collect();
                ensure_eq!(self.r().mask(), keys, "{name}: occupied indexes");
                let want: Vec<(Index, Seen)> = self.m.iter().map(|(i, v)| (*i, *v)).collect();
                ensure_eq!(self.r().join(), want, "{name}: contents shown by a join");
                for (i, v) in &self.m {
                    ensure_eq!(self.r().get(*i), Some(*v), "{name}: value at {i}");
                    ensure!(self.r().contains(*i), "{name}: {i} should be occupied");
                }
                c.count("values compared", 2 * self.m.len() as u64);
            }
            if self.f.map {
                for _ in 0..4 {
                    let i = if c.rng.bool() { *c.rng.pick(u) } else { pats::outside(&mut c.rng, u, cap) };
                    let want = self.m.get(&i).copied();
                    ensure_eq!(self.r().get(i), want, "{name}: value at {i}");
                    ensure_eq!(self.r().contains(i), want.is_some(), "{name}: occupancy of {i}");
                    if want.is_none() {
                        ensure_eq!(self.s().get_mut(i, None), None, "{name}: mutable access at the empty {i}");
                        ensure_eq!(self.s().guard(i, GAct::Nothing), None, "{name}: guard at the empty {i}");
                        ensure_eq!(self.s().remove(i), None, "{name}: removal from the empty {i}");
                    }
                }
            }
        }
        if self.f.map {
            let p = PROTOCOL.with(|p| {
                let mut p = p.lock().unwrap();
                (std::mem::take(&mut p.0), p.1.take())
            });
            c.count("raw storage calls watched", p.0);
            if let Some(e) = p.1 {
                return Err(format!("{name}: {e}"));
            }
        }
        if self.f.dense && full {
            if let Some(mut sl) = self.r().slice() {
                c.count("slices compared", 1);
                let mut want: Vec<Seen> = self.m.values().copied().collect();
                ensure_eq!(sl.len(), want.len(), "{name}: length of the slice");
                sl.sort();
                want.sort();
                ensure_eq!(sl, want, "{name}: values in the slice (sorted)");
            }
        }
        if self.f.track {
            let want: Vec<Index> = self.modified.iter().copied().collect();
            ensure_eq!(self.r().modified_bits(), want, "{name}: the modified set (tracking = {})", self.tracking);
            ensure_eq!(self.r().tracking(), self.tracking, "{name}: the tracking flag");
            c.count("modified sets compared", 1);
            c.count("modified indexes", want.len() as u64);
            if full {
                let want: Vec<(Index, Option<Seen>)> =
                    self.modified.iter().map(|i| (*i, self.m.get(i).copied())).collect();
                ensure_eq!(self.r().modified(), want, "{name}: join over the modified set");
                c.count("modified but removed", want.iter().filter(|w| w.1.is_none()).count() as u64);
            }
        }
        if self.f.drops {
            self.check_drops(c)?;
        }
        Ok(())
    }

    fn check_drops(&mut self, c: &mut Case) -> Res {
        let name = self.r().name().to_string();
        c.count("ledgers compared", 1);
        if self.r().recorded() {
            let mut want = self.r().held();
            want.extend(self.m.values().map(|v| v.1));
            self.ledger.expect_live(&want, &name)?;
        } else if self.ztoks {
            let want = (self.m.len() + self.r().held_len()) as i64;
            ensure_eq!(ZTok::live(), want, "{name}: live zero-sized values");
        }
        Ok(())
    }
}

fn history(c: &mut Case, f: Focus, kinds: &[Kind], ops: u64, size: usize) -> Res {
    let k = &kinds[c.no as usize % kinds.len()];
    let ledger = Ledger::new();
    ZTok::reset();
    PROTOCOL.with(|p| *p.lock().unwrap() = (0, None));
    let s = (k.make)();
    c.mix_str(s.name());
    let ztoks = s.name().contains("zero-sized");
    let pat = if size > 100 {
        Pat::Small
    } else {
        pats::pick_pat(&mut c.rng, if s.name().starts_with("dense") || s.name().contains("hash") { pats::LIMIT } else { 70_000.min(k.cap) })
    };
    // Vectors pay for the largest index: allow the far end only sometimes.
    let cap = if c.rng.chance(1, 40) { k.cap } else { 300_000.min(k.cap) };
    let n = if size > 100 { size } else { c.rng.range(1, size as u64) as usize };
    let u = pats::universe(&mut c.rng, pat, n, cap);
    c.mix(pat as u64);
    let mut sim = Sim {
        s: Some(s),
        f,
        m: BTreeMap::new(),
        tracking: false,
        modified: BTreeSet::new(),
        ledger: &ledger,
        next: 0,
        ztoks,
    };
    if f.track && c.rng.chance(3, 4) {
        sim.s().set_tracking(true);
        sim.tracking = true;
    }
    let every = 1 + sim_every(size);
    for step in 0..ops {
        sim.step(c, &u, cap)?;
        sim.check(c, &u, cap, step % every == 0)?;
    }
    sim.check(c, &u, cap, true)?;
    c.nontrivial = c.ops.len() > 3;
    let name = sim.r().name().to_string();
    let held = sim.r().held_len();
    let _ = held;
    sim.s.take().unwrap().finish();
    if f.drops {
        if ztoks {
            ensure_eq!(ZTok::live(), 0, "{name}: live zero-sized values after dropping the storage");
        } else {
            ledger.expect_live(&BTreeSet::new(), &format!("{name}: after dropping the storage"))?;
        }
        c.count("values created", ledger.created());
        c.count("values dropped", ledger.dropped());
    }
    Ok(())
}

/// Many values at once: few operations on each of thousands of indexes, so that growth, rehashing and the upper layers of
/// the bit sets come into play. The complete state is compared after every phase.
fn mass(c: &mut Case, f: Focus, kinds: &[Kind]) -> Res {
    let k = &kinds[c.no as usize % kinds.len()];
    let ledger = Ledger::new();
    ZTok::reset();
    PROTOCOL.with(|p| *p.lock().unwrap() = (0, None));
    let s = (k.make)();
    c.mix_str(s.name());
    let ztoks = s.name().contains("zero-sized");
    let slow = s.recorded() || s.name().contains("watched") || s.name().contains("[u64");
    let n: usize = match c.rng.below(if slow { 7 } else { 12 }) {
        0..=1 => 300,
        2..=3 => 2_000,
        4..=5 => 5_000,
        6..=8 => 20_000,
        9..=10 => 70_000,
        _ => 140_000,
    };
    let n = n + c.rng.idx(n / 3);
    let cap = if s.name().contains("vector") { k.cap.min(2_000_000) } else { k.cap };
    let stride = *c.rng.pick(&[1, 1, 1, 2, 3, 7, 64, 100]);
    let stride = if n as u64 * stride < cap as u64 { stride } else { 1 };
    let room = cap as u64 - n as u64 * stride;
    let start = match c.rng.below(3) {
        0 => 0,
        1 => c.rng.below(room.min(300_000) + 1),
        _ => c.rng.below(room + 1),
    };
    let u: Vec<Index> = (0..n as u64).map(|i| (start + i * stride) as Index).collect();
    c.mix(n as u64);
    c.mix(stride);
    let mut sim = Sim {
        s: Some(s),
        f,
        m: BTreeMap::new(),
        tracking: false,
        modified: BTreeSet::new(),
        ledger: &ledger,
        next: 0,
        ztoks,
    };
    if f.track && c.rng.chance(4, 5) {
        sim.s().set_tracking(true);
        sim.tracking = true;
    }
    let phases = c.rng.range(3, 8);
    for phase in 0..phases {
        sim.phase(c, &u, phase == 0)?;
        sim.check(c, &u, cap, true)?;
        c.count("phases over many values", 1);
    }
    for _ in 0..6 {
        sim.step(c, &u, cap)?;
        sim.check(c, &u, cap, false)?;
    }
    sim.check(c, &u, cap, true)?;
    c.nontrivial = n > 1_000;
    let name = sim.r().name().to_string();
    sim.s.take().unwrap().finish();
    if f.drops {
        if ztoks {
            ensure_eq!(ZTok::live(), 0, "{name}: live zero-sized values after dropping the storage");
        } else {
            ledger.expect_live(&BTreeSet::new(), &format!("{name}: after dropping the storage"))?;
        }
    }
    Ok(())
}

impl<'l> Sim<'l> {
    /// A part of the given indexes, in some order.
    fn part(c: &mut Case, mut v: Vec<Index>, most: bool) -> Vec<Index> {
        match c.rng.below(5) {
            _ if most => {}
            0 => {}
            1 => {
                let n = c.rng.idx(v.len() + 1);
                v.truncate(n)
            }
            2 => {
                let n = c.rng.idx(v.len() + 1);
                v.drain(..n);
            }
            3 => {
                let n = c.rng.range(2, 9);
                v.retain(|_| c.rng.chance(1, n))
            }
            _ => {
                let n = c.rng.range(2, 9);
                v.retain(|_| !c.rng.chance(1, n))
            }
        }
        match c.rng.below(4) {
            0..=1 => {}
            2 => v.reverse(),
            _ => c.rng.shuffle(&mut v),
        }
        v
    }

    fn phase(&mut self, c: &mut Case, u: &[Index], first: bool) -> Res {
        match if first { 0 } else { c.rng.below(if self.f.track { 17 } else { 13 }) } {
            0..=2 => {
                let v = Self::part(c, u.to_vec(), first);
                c.op("insert many", v.len() as u64, v.first().copied().unwrap_or(0) as u64);
                for i in v {
                    let n = self.num();
                    let (id, old) = self.s().insert(i, n);
                    let shown = self.r().shown(n);
                    let was = self.m.insert(i, (shown, id));
                    self.auto(i);
                    if old != was {
                        self.same(old, was, &format!("value replaced by an insertion at {i}"))?;
                    }
                }
            }
            3..=6 => {
                let v = Self::part(c, self.m.keys().copied().collect(), false);
                c.op("remove many", v.len() as u64, v.first().copied().unwrap_or(0) as u64);
                for i in v {
                    let old = self.s().remove(i);
                    let was = self.m.remove(&i);
                    self.auto(i);
                    if old != was {
                        self.same(old, was, &format!("value removed from {i}"))?;
                    }
                }
            }
            7 => {
                let v = Self::part(c, u.to_vec(), false);
                c.op("get_or_insert_with many", v.len() as u64, 0);
                for i in v {
                    let n = self.num();
                    let (got, calls) = self.s().get_or_insert(i, n);
                    let shown = self.r().shown(n);
                    self.auto(i);
                    let was = *self.m.entry(i).or_insert((shown, got.1));
                    if got != was {
                        self.same(got, was, &format!("value of get_or_insert_with at {i}"))?;
                    }
                    self.same(calls > 1, false, "calls of an initialiser")?;
                }
            }
            8 => {
                let ch = self.edit_choice(c);
                c.op("edit many by lookups", ch.len() as u64, 0);
                for (i, n) in &ch {
                    let old = self.s().get_mut(*i, Some(*n));
                    self.auto(*i);
                    if old != self.m.get(i).copied() {
                        self.same(old, self.m.get(i).copied(), &format!("mutable access at {i}"))?;
                    }
                }
                self.apply(&ch, ch.keys().copied());
            }
            9 if self.r().slice().is_some() => {
                let len = self.r().slice().unwrap().len();
                let to: Vec<Option<u64>> = (0..len)
                    .map(|_| if c.rng.bool() { Some(self.num()) } else { None })
                    .collect();
                c.op("edit the whole slice", len as u64, 0);
                let old = self.s().slice_edit(&mut |at| to.get(at).copied().flatten());
                self.same(old.len(), self.m.len(), "length of the mutable slice of a dense storage")?;
                if self.r().tells() {
                    let at: std::collections::HashMap<Seen, Index> = self.m.iter().map(|(i, v)| (*v, *i)).collect();
                    self.same(at.len(), self.m.len(), "distinct values")?;
                    for (v, n) in old.iter().zip(to) {
                        match (at.get(v), n) {
                            (Some(i), Some(n)) => self.m.get_mut(i).unwrap().0 = self.r().shown(n),
                            (Some(_), None) => {}
                            (None, _) => self.same(Some(v), None, "a value in the mutable slice that is stored nowhere")?,
                        }
                    }
                } else {
                    self.reread();
                }
            }
            10 if c.rng.chance(1, 3) => {
                c.op("drop and start again", self.m.len() as u64, 0);
                self.s().renew();
                self.m.clear();
                self.modified.clear();
                self.tracking = false;
                if self.f.track {
                    self.s().set_tracking(true);
                    self.tracking = true;
                }
            }
            9..=10 => {
                let ch = self.edit_choice(c);
                c.op("parallel join mutably", 0, ch.len() as u64);
                let got = self.s().par_mut(&|i| ch.get(&i).copied());
                let want: Vec<(Index, Seen)> = self.m.iter().map(|(i, v)| (*i, *v)).collect();
                for (i, _) in &want {
                    self.auto(*i);
                }
                self.apply(&ch, want.iter().map(|w| w.0));
                self.same(got == want, true, "items of a parallel mutable join of many values are right")?;
            }
            11 => {
                let ch = self.edit_choice(c);
                let take = if c.rng.bool() { usize::MAX } else { c.rng.idx(self.m.len() + 1) };
                c.op("join mutably", take.min(999_999) as u64, ch.len() as u64);
                let got = self.s().join_mut(take, &mut |i| ch.get(&i).copied());
                let want: Vec<(Index, Seen)> = self.m.iter().take(take).map(|(i, v)| (*i, *v)).collect();
                for (i, _) in &want {
                    self.auto(*i);
                }
                self.apply(&ch, want.iter().map(|w| w.0));
                self.same(got == want, true, "items of a mutable join of many values are right")?;
            }
            12 => {
                c.op("move, and drop returned values", self.r().held_len() as u64, 0);
                self.s().relocate();
                self.s().drop_held();
            }
            13 => {
                c.op("clear modified", self.modified.len() as u64, 0);
                c.count("large modified sets cleared", (self.modified.len() > 1_000) as u64);
                self.s().clear_modified();
                self.modified.clear();
            }
            14 => {
                let on = !self.tracking || c.rng.chance(1, 3);
                c.op("set tracking", on as u64, 0);
                self.s().set_tracking(on);
                self.tracking = on;
            }
            15 => {
                let v = Self::part(c, u.to_vec(), false);
                c.op("mark many by hand", v.len() as u64, 0);
                for i in v {
                    self.r().mark(i);
                    self.modified.insert(i);
                }
            }
            _ => {
                let ch = self.edit_choice(c);
                let take = if c.rng.bool() { usize::MAX } else { c.rng.idx(self.modified.len() + 1) };
                c.op("join modified mutably", take.min(999_999) as u64, 0);
                let got = self.s().modified_mut(take, &mut |i| ch.get(&i).copied());
                let want: Vec<(Index, Option<Seen>)> = self
                    .modified
                    .iter()
                    .take(take)
                    .map(|i| (*i, self.m.get(i).copied()))
                    .collect();
                self.apply(&ch, want.iter().filter(|w| w.1.is_some()).map(|w| w.0));
                ensure!(got == want, "items of a mutable join over a modified set of {} are wrong", self.modified.len());
            }
        }
        Ok(())
    }

    /// Take what lookups say, where values cannot be told apart.
    fn reread(&mut self) {
        let keys: Vec<Index> = self.m.keys().copied().collect();
        for i in keys {
            if let Some(v) = self.r().get(i) {
                self.m.insert(i, v);
            }
        }
    }
}

fn sim_every(size: usize) -> u64 {
    if size > 100 {
        40
    } else {
        0
    }
}

// ---------------------------------------------------------------------------------------------
// C09: injected panics

struct PanicSim<'l> {
    s: Box<dyn Store>,
    m: BTreeMap<Index, Seen>,
    ledger: &'l Ledger,
    next: u64,
}

impl<'l> PanicSim<'l> {
    /// The storage must hold exactly the model, all of it intact and alive, and nothing else may be alive.
    fn check(&self, what: &str) -> Res {
        let name = self.s.name();
        self.ledger.check().map_err(|e| format!("{name}: {what}: {e}"))?;
        ensure_eq!(
            self.s.mask(),
            self.m.keys().copied().collect::<Vec<_>>(),
            "{name}: {what}: occupied indexes"
        );
        for (i, v) in &self.m {
            ensure_eq!(self.s.get(*i), Some(*v), "{name}: {what}: value at {i}");
            ensure!(self.ledger.is_live(v.1), "{name}: {what}: the value at {i} has been dropped");
        }
        if let Some(sl) = self.s.slice() {
            ensure_eq!(sl.len(), self.m.len(), "{name}: {what}: length of the slice");
        }
        let mut want = self.s.held();
        want.extend(self.m.values().map(|v| v.1));
        self.ledger.expect_live(&want, &format!("{name}: {what}"))
    }

    fn set(&mut self, i: Index, n: u64) {
        if let Some(v) = self.m.get_mut(&i) {
            v.0 = n;
        }
    }
}

fn injected(c: &mut Case, p: &gmon::Caught) -> Res {
    ensure!(p.msg.contains(INJECTED), "unexpected panic: {}", p.msg);
    c.count("panics injected", 1);
    Ok(())
}

fn panics(c: &mut Case, kinds: &[Kind]) -> Res {
    let k = &kinds[c.no as usize % kinds.len()];
    let ledger = Ledger::new();
    let s = (k.make)();
    c.mix_str(s.name());
    let (pat, size) = (pats::pick_pat(&mut c.rng, 70_000), c.rng.range(1, 24) as usize);
    let u = pats::universe(&mut c.rng, pat, size, 300_000);
    let mut t = PanicSim {
        s,
        m: BTreeMap::new(),
        ledger: &ledger,
        next: 0,
    };
    for _ in 0..c.rng.range(5, 60) {
        let i = *c.rng.pick(&u);
        t.next += 1;
        let n = t.next;
        // Panic at one of the next callbacks, sometimes further off than the operation goes.
        let after = *c.rng.pick(&[0, 0, 0, 1, 2, 3, 5, 9]);
        let armed = c.rng.chance(2, 3);
        if armed {
            ledger.arm(after);
        }
        let what;
        match c.rng.below(12) {
            0..=2 => {
                what = "insert";
                let r = catch(|| t.s.insert(i, n));
                ledger.disarm();
                match r {
                    Ok((id, _)) => {
                        t.m.insert(i, (n, id));
                    }
                    // A refused insertion changes nothing (and drops the new value).
                    Err(p) => injected(c, &p)?,
                }
            }
            3..=5 => {
                what = "get_or_insert_with";
                let r = catch(|| t.s.get_or_insert_callback(i, n));
                ledger.disarm();
                match r {
                    Ok(v) => {
                        t.m.entry(i).or_insert(v);
                    }
                    Err(p) => {
                        injected(c, &p)?;
                        if !t.m.contains_key(&i) && t.s.contains(i) {
                            // Only the mutable access after a completed insertion can have failed.
                            ensure!(
                                p.msg.contains("raw get_mut"),
                                "{}: index {i} is occupied although its initialisation panicked",
                                t.s.name()
                            );
                            let v = t.s.get(i).ok_or("nothing there")?;
                            t.m.insert(i, v);
                        }
                    }
                }
            }
            6 => {
                what = "remove";
                let r = catch(|| t.s.remove(i));
                ledger.disarm();
                match r {
                    Ok(_) => {
                        t.m.remove(&i);
                    }
                    Err(p) => injected(c, &p)?,
                }
            }
            7 => {
                what = "get_mut";
                let r = catch(|| t.s.get_mut(i, Some(n)));
                ledger.disarm();
                match r {
                    Ok(_) => t.set(i, n),
                    Err(p) => injected(c, &p)?,
                }
            }
            8 => {
                what = "join with a panicking consumer";
                let mut done = Vec::new();
                let r = catch(|| {
                    t.s.join_mut(usize::MAX, &mut |i| {
                        ledger.table.callback("consumer");
                        done.push(i);
                        Some(n)
                    })
                });
                ledger.disarm();
                for i in done {
                    t.set(i, n);
                }
                if let Err(p) = r {
                    injected(c, &p)?;
                }
            }
            9 => {
                what = "parallel join with a panicking consumer";
                let done = Mutex::new(Vec::new());
                let r = catch(|| {
                    t.s.par_mut(&|i| {
                        ledger.table.callback("consumer");
                        done.lock().unwrap().push(i);
                        Some(n)
                    })
                });
                ledger.disarm();
                for i in done.into_inner().unwrap() {
                    t.set(i, n);
                }
                if let Err(p) = r {
                    ensure!(
                        p.msg.contains(INJECTED) || p.msg.contains("payload"),
                        "unexpected panic: {}",
                        p.msg
                    );
                    c.count("panics injected", 1);
                }
            }
            10 => {
                what = "drop the returned values";
                for _ in 0..3 {
                    if let Err(p) = catch(|| t.s.drop_held()) {
                        injected(c, &p)?;
                    }
                }
                ledger.disarm();
                t.s.drop_held();
            }
            _ => {
                what = "drop the storage and start again";
                let r = catch(|| t.s.renew());
                ledger.disarm();
                c.count("storages dropped", 1);
                if let Err(p) = r {
                    injected(c, &p)?;
                    c.count("storages dropped with a panicking destructor", 1);
                }
                t.m.clear();
            }
        }
        c.op(what, i as u64, armed as u64 * (after + 1));
        t.check(what)?;
    }
    // Dropping everything at the end, with a destructor panicking somewhere.
    let n = t.m.len() as u64;
    t.s.drop_held();
    ledger.arm(c.rng.below(n + 2));
    let name = t.s.name().to_string();
    let PanicSim { s, .. } = t;
    let r = catch(move || s.finish());
    ledger.disarm();
    if let Err(p) = r {
        injected(c, &p)?;
        c.count("storages dropped with a panicking destructor", 1);
    }
    ledger.expect_live(&BTreeSet::new(), &format!("{name}: after dropping the storage of {n} values while a destructor panics"))?;
    c.nontrivial = ledger.fired() > 0;
    c.count("callbacks into user code", ledger.callbacks());
    Ok(())
}

fn main() {
    let opts = Opts::parse();
    let r = Runner::new(opts.clone());
    let id = opts.id.as_str();
    rayon::ThreadPoolBuilder::new().num_threads(6).build_global().unwrap();
    let ks = kinds(id);
    let t = opts.threads;
    let f = match id {
        "C07" => Focus { map: true, ..Focus::default() },
        "C08" => Focus { drops: true, ..Focus::default() },
        "C10" => Focus { dense: true, ..Focus::default() },
        "C11" => Focus { track: true, ..Focus::default() },
        _ => Focus::default(),
    };
    r.add_count("storage kinds", ks.len() as u64);
    if id == "C09" {
        r.run(
            "storage-panics",
            "random histories on every storage kind (also ones that refuse to store) with a panic injected at a random callback (initialiser, raw storage, join consumer, destructor); contents and value ledger compared after each operation; non-trivial: a panic was injected",
            opts.n(16_000, 250_000),
            t,
            |c| panics(c, &ks),
        );
    } else {
        r.run(
            "histories",
            "random histories of all storage operations on every storage kind and value type, over few or clustered, boundary, sparse or wide indexes; model compared after every operation",
            opts.n(12_000, 200_000),
            t,
            |c| {
                let ops = c.rng.range(5, 120);
                let size = *c.rng.clone().pick(&[4, 12, 40, 100]);
                history(c, f, &ks, ops, size)
            },
        );
        r.run(
            "large-histories",
            "random histories over thousands of indexes (several layers of the bit sets)",
            opts.n(64, 800),
            t,
            |c| {
                let size = *c.rng.clone().pick(&[300, 4200, 9000]);
                history(c, f, &ks, 200, size)
            },
        );
        r.run(
            "mass",
            "few operations on each of up to 180 000 indexes: phases that fill, thin out, edit or clear everything, the complete state compared after each; non-trivial: more than 1000 indexes",
            opts.n(if id == "C10" { 220 } else { 8 * ks.len() as u64 }, 60 * ks.len() as u64),
            t,
            |c| mass(c, f, &ks),
        );
    }
    r.finish();
}
