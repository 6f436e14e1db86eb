//! C15–C18: resource monitors.
use std::{
    any::Any,
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    sync::{
        atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering},
        Arc, Barrier, Mutex,
    },
    time::{Duration, Instant},
};

use gmon::{catch, ensure, ensure_eq, Case, Ledger, Opts, Res, Rng, Runner, Tok};
use goggles::{
    resource_set::ResourceId, Component, DenseVecStorage, Entities, Entity, FetchNone, FetchResources, Flagged,
    HashMapStorage, MaskedStorage, RawStorage, Read, ReadComponent, ReadResource, ResourceConflict, ResourceSet,
    Resources, RwResources, VecStorage, World, WorldResourceId, WorldResources, Write, WriteComponent,
    WriteResource,
};

// ---------------------------------------------------------------------------------------------
// Resource types: all of the same shape, some without, some with a thread affinity

/// Shareable.
#[derive(Debug)]
struct R<const N: usize>(Tok);
/// May be sent but not shared, so it can only be written.
#[derive(Debug)]
struct X<const N: usize>(Tok, std::cell::Cell<u64>);

trait Thing: Sized + Send + 'static {
    fn new(t: Tok) -> Self;
    fn tok(&self) -> &Tok;
    fn tok_mut(&mut self) -> &mut Tok;
    fn into_tok(self) -> Tok;
}

impl<const N: usize> Thing for R<N> {
    fn new(t: Tok) -> Self {
        R(t)
    }
    fn tok(&self) -> &Tok {
        &self.0
    }
    fn tok_mut(&mut self) -> &mut Tok {
        &mut self.0
    }
    fn into_tok(self) -> Tok {
        self.0
    }
}

impl<const N: usize> Thing for X<N> {
    fn new(t: Tok) -> Self {
        X(t, std::cell::Cell::new(0))
    }
    fn tok(&self) -> &Tok {
        &self.0
    }
    fn tok_mut(&mut self) -> &mut Tok {
        &mut self.0
    }
    fn into_tok(self) -> Tok {
        self.0
    }
}

impl Component for R<0> {
    type Storage = VecStorage<Self>;
}
impl Component for R<1> {
    type Storage = DenseVecStorage<Self>;
}
impl Component for R<2> {
    type Storage = HashMapStorage<Self>;
}
impl Component for R<3> {
    type Storage = Flagged<VecStorage<Self>>;
}
impl Component for R<4> {
    type Storage = VecStorage<Self>;
}
impl Component for R<5> {
    type Storage = VecStorage<Self>;
}

/// Number of shareable types; as many again are only sendable.
const K: usize = 6;

macro_rules! for_type {
    ($k:expr, $t:ident => $e:expr) => {
        match $k {
            0 => {
                type $t = R<0>;
                $e
            }
            1 => {
                type $t = R<1>;
                $e
            }
            2 => {
                type $t = R<2>;
                $e
            }
            3 => {
                type $t = R<3>;
                $e
            }
            4 => {
                type $t = R<4>;
                $e
            }
            5 => {
                type $t = R<5>;
                $e
            }
            _ => unreachable!(),
        }
    };
}

macro_rules! for_any_type {
    ($k:expr, $t:ident => $e:expr) => {
        match $k {
            6 => {
                type $t = X<0>;
                $e
            }
            7 => {
                type $t = X<1>;
                $e
            }
            k => for_type!(k, $t => $e),
        }
    };
}

// ---------------------------------------------------------------------------------------------
// Places that can be borrowed

/// Where a borrow goes: a resource of a set, or a resource or a component storage of a world.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Site {
    Set(usize),
    Res(usize),
    Comp(usize),
}

struct Store {
    set: ResourceSet,
    world: World,
}

impl Store {
    fn new() -> Store {
        Store {
            set: ResourceSet::new(),
            world: World::new(),
        }
    }

    fn put(&mut self, s: Site, t: Tok) {
        match s {
            Site::Set(k) => for_any_type!(k, T => drop(self.set.insert(T::new(t)))),
            Site::Res(k) => for_any_type!(k, T => drop(self.world.insert_resource(T::new(t)))),
            Site::Comp(k) => {
                for_type!(k, T => {
                    self.world.insert_component::<T>();
                    self.world.get_component_mut::<T>().storage_mut().insert(3, T::new(t));
                })
            }
        }
    }

    fn remove(&mut self, s: Site) -> bool {
        match s {
            Site::Set(k) => for_any_type!(k, T => self.set.remove::<T>().is_some()),
            Site::Res(k) => for_any_type!(k, T => self.world.remove_resource::<T>().is_some()),
            Site::Comp(k) => for_type!(k, T => self.world.remove_component::<T>().is_some()),
        }
    }

    fn contains(&self, s: Site) -> bool {
        match s {
            Site::Set(k) => for_any_type!(k, T => self.set.contains::<T>()),
            Site::Res(k) => for_any_type!(k, T => self.world.contains_resource::<T>()),
            Site::Comp(k) => for_type!(k, T => self.world.contains_component::<T>()),
        }
    }

    /// The number of the value, through exclusive access to everything.
    fn direct(&mut self, s: Site) -> u64 {
        match s {
            Site::Set(k) => for_any_type!(k, T => self.set.get_mut::<T>().tok().id),
            Site::Res(k) => for_any_type!(k, T => self.world.get_resource_mut::<T>().tok().id),
            Site::Comp(k) => {
                for_type!(k, T => self.world.get_component_mut::<T>().storage().get(3).unwrap().tok().id)
            }
        }
    }

    /// Borrow; panics when refused.
    fn take(&self, s: Site, excl: bool, how: u64) -> Held<'_> {
        match (s, excl) {
            (Site::Set(k), false) => for_type!(k, T => {
                if how % 2 == 0 {
                    Held::new(self.set.borrow::<T>(), |g| g.tok().id)
                } else {
                    Held::new(self.set.fetch::<Read<T>>(), |g| g.tok().id)
                }
            }),
            (Site::Set(k), true) => for_any_type!(k, T => {
                if how % 2 == 0 {
                    Held::new(self.set.borrow_mut::<T>(), |g| { g.tok_mut().val += 1; g.tok().id })
                } else {
                    Held::new(self.set.fetch::<Write<T>>(), |g| { g.tok_mut().val += 1; g.tok().id })
                }
            }),
            (Site::Res(k), false) => for_type!(k, T => {
                if how % 2 == 0 {
                    Held::new(self.world.read_resource::<T>(), |g| g.tok().id)
                } else {
                    Held::new(self.world.fetch::<ReadResource<T>>(), |g| g.tok().id)
                }
            }),
            (Site::Res(k), true) => for_any_type!(k, T => {
                if how % 2 == 0 {
                    Held::new(self.world.write_resource::<T>(), |g| { g.tok_mut().val += 1; g.tok().id })
                } else {
                    Held::new(self.world.fetch::<WriteResource<T>>(), |g| { g.tok_mut().val += 1; g.tok().id })
                }
            }),
            (Site::Comp(k), false) => for_type!(k, T => {
                if how % 2 == 0 {
                    Held::new(self.world.read_component::<T>(), |g| g.storage().get(3).unwrap().tok().id)
                } else {
                    Held::new(self.world.fetch::<ReadComponent<T>>(), |g| g.storage().get(3).unwrap().tok().id)
                }
            }),
            (Site::Comp(k), true) => for_type!(k, T => {
                if how % 2 == 0 {
                    Held::new(self.world.write_component::<T>(), |g| {
                        g.storage_mut().get_mut(3).unwrap().tok_mut().val += 1;
                        g.storage().get(3).unwrap().tok().id
                    })
                } else {
                    Held::new(self.world.fetch::<WriteComponent<T>>(), |g| {
                        g.storage_mut().get_mut(3).unwrap().tok_mut().val += 1;
                        g.storage().get(3).unwrap().tok().id
                    })
                }
            }),
        }
    }
}

/// A guard, with a way of using it.
struct Held<'a>(Box<dyn Touch + 'a>);

trait Touch {
    fn touch(&mut self) -> u64;
}

impl<G, F: Fn(&mut G) -> u64> Touch for (G, F) {
    fn touch(&mut self) -> u64 {
        (self.1)(&mut self.0)
    }
}

impl<'a> Held<'a> {
    fn new<G: 'a>(g: G, f: impl Fn(&mut G) -> u64 + 'a) -> Held<'a> {
        Held(Box::new((g, f)))
    }
}

fn sites(rng: &mut Rng, n: usize) -> Vec<Site> {
    let mut v: Vec<Site> = (0..K + 2)
        .flat_map(|k| [Site::Set(k), Site::Res(k)])
        .chain((0..K).map(Site::Comp))
        .collect();
    rng.shuffle(&mut v);
    v.truncate(n);
    v
}

fn shareable(s: Site) -> bool {
    !matches!(s, Site::Set(k) | Site::Res(k) if k >= K)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum State {
    Absent,
    Free,
    Shared,
    Excl,
}

/// Find out how a place is held by trying.
fn probe(store: &Store, s: Site) -> State {
    if !store.contains(s) {
        return State::Absent;
    }
    if catch(|| drop(store.take(s, true, 0))).is_ok() {
        return State::Free;
    }
    if shareable(s) && catch(|| drop(store.take(s, false, 0))).is_ok() {
        return State::Shared;
    }
    State::Excl
}

// ---------------------------------------------------------------------------------------------
// C15

#[derive(Default, Clone, Debug)]
struct Hold {
    /// The value that is there.
    id: u64,
    readers: u64,
    writer: bool,
    /// Holders that have been leaked.
    stuck: bool,
}

fn borrows(c: &mut Case) -> Res {
    let ledger = Ledger::new();
    let mut store = Store::new();
    let n = c.rng.range(2, 8) as usize;
    let sites = sites(&mut c.rng, n);
    let mut model: BTreeMap<Site, Option<Hold>> = sites.iter().map(|s| (*s, None)).collect();
    // Exclusive phases (that change what is there) alternate with shared phases.
    for _ in 0..c.rng.range(1, 5) {
        for s in &sites {
            match c.rng.below(6) {
                0 => {
                    // (the dependency `atomic_refcell` asserts, in debug builds only, that nothing is
                    // borrowed when the value is taken out, and a leaked guard counts as such)
                    let stuck = matches!(&model[s], Some(h) if h.stuck);
                    match catch(|| store.remove(*s)) {
                        Ok(had) => ensure_eq!(had, model[s].is_some(), "remove of {s:?}"),
                        Err(p) => ensure!(cfg!(debug_assertions) && stuck, "remove of {s:?}: {p:?}"),
                    }
                    ensure!(!store.contains(*s), "{s:?} is still there after remove");
                    model.insert(*s, None);
                    c.op("remove", 0, 0);
                }
                1 if model[s].is_some() => {
                    // (exclusive access does not mind leaked guards, apart from that assertion)
                    match catch(|| store.direct(*s)) {
                        Ok(id) => ensure_eq!(id, model[s].as_ref().unwrap().id, "value of {s:?}"),
                        Err(p) => ensure!(
                            cfg!(debug_assertions) && model[s].as_ref().unwrap().stuck,
                            "direct access to {s:?}: {p:?}"
                        ),
                    }
                    c.op("direct", 0, 0);
                }
                1 => {
                    ensure!(catch(|| store.direct(*s)).is_err(), "direct access to {s:?}, which is not there");
                    c.op("direct, absent", 0, 0);
                }
                2..=4 => {
                    let t = ledger.tok();
                    let id = t.id;
                    let stuck = matches!(&model[s], Some(h) if h.stuck);
                    // (what is put there is new, and nobody holds it)
                    if stuck && (cfg!(debug_assertions) || c.rng.bool()) {
                        let _ = catch(|| store.remove(*s));
                    }
                    store.put(*s, t);
                    model.insert(
                        *s,
                        Some(Hold {
                            id,
                            ..Hold::default()
                        }),
                    );
                    c.op("put", 0, 0);
                }
                _ => {}
            }
        }
        let mut guards: Vec<(Held, Site, bool)> = Vec::new();
        for _ in 0..c.rng.range(5, 80) {
            let s = *c.rng.pick(&sites);
            match c.rng.below(10) {
                0..=5 => {
                    let excl = !shareable(s) || c.rng.chance(1, 3);
                    let how = c.rng.below(2);
                    let r = catch(|| {
                        let mut h = store.take(s, excl, how);
                        let id = h.0.touch();
                        (h, id)
                    });
                    let m = model.get_mut(&s).unwrap();
                    let grant = match m {
                        None => false,
                        Some(h) => !h.writer && (!excl || h.readers == 0),
                    };
                    c.op(if excl { "take exclusively" } else { "take shared" }, grant as u64, 0);
                    c.count(if grant { "grants" } else { "refusals" }, 1);
                    match r {
                        Ok((h, id)) => {
                            ensure!(
                                grant,
                                "{} access to {s:?} was granted although {m:?}",
                                if excl { "exclusive" } else { "shared" }
                            );
                            let m = m.as_mut().unwrap();
                            ensure_eq!(id, m.id, "value seen in {s:?}");
                            if excl {
                                m.writer = true;
                            } else {
                                m.readers += 1;
                            }
                            guards.push((h, s, excl));
                        }
                        Err(p) => {
                            ensure!(
                                !grant,
                                "{} access to {s:?} was refused although {m:?}: {}",
                                if excl { "exclusive" } else { "shared" },
                                p.msg
                            );
                        }
                    }
                }
                6..=8 if !guards.is_empty() => {
                    let n = c.rng.idx(guards.len());
                    let (mut h, s, excl) = guards.swap_remove(n);
                    let m = model.get_mut(&s).unwrap().as_mut().unwrap();
                    ensure_eq!(h.0.touch(), m.id, "value seen in {s:?} through a guard that was held for a while");
                    if c.rng.chance(1, 12) {
                        std::mem::forget(h);
                        m.stuck = true;
                        c.op("leak", 0, 0);
                        c.count("leaked guards", 1);
                    } else {
                        drop(h);
                        if excl {
                            m.writer = false;
                        } else {
                            m.readers -= 1;
                        }
                        c.op("release", 0, 0);
                    }
                }
                _ => {
                    let want = match &model[&s] {
                        None => State::Absent,
                        Some(h) if h.writer => State::Excl,
                        Some(h) if h.readers > 0 => {
                            if shareable(s) {
                                State::Shared
                            } else {
                                State::Excl
                            }
                        }
                        Some(_) => State::Free,
                    };
                    ensure_eq!(probe(&store, s), want, "state of {s:?}, where {:?}", model[&s]);
                    c.op("probe", 0, 0);
                }
            }
        }
        // A crowd of readers.
        if c.rng.chance(1, 20) {
            if let Some(s) = sites.iter().find(|s| shareable(**s) && matches!(&model[s], Some(h) if !h.writer)) {
                let crowd: Result<Vec<_>, _> = catch(|| (0..3000).map(|n| store.take(*s, false, n)).collect());
                let crowd = crowd.map_err(|p| format!("one of many readers was refused: {p:?}"))?;
                ensure!(probe(&store, *s) == State::Shared, "{s:?} is not shared by 3000 readers");
                drop(crowd);
                let want = if model[s].as_ref().unwrap().readers > 0 { State::Shared } else { State::Free };
                ensure_eq!(probe(&store, *s), want, "state of {s:?} after 3000 readers");
                c.count("crowds of readers", 1);
            }
        }
        for (h, s, excl) in guards {
            drop(h);
            let m = model.get_mut(&s).unwrap().as_mut().unwrap();
            if excl {
                m.writer = false;
            } else {
                m.readers -= 1;
            }
        }
    }
    c.nontrivial = true;
    Ok(())
}

/// Several threads take and release; who holds what is counted.
fn borrow_threads(c: &mut Case) -> Res {
    let ledger = Ledger::new();
    let mut store = Store::new();
    let n = c.rng.range(1, 3) as usize;
    let sites = sites(&mut c.rng, n);
    for s in &sites {
        store.put(*s, ledger.tok());
    }
    let store = &store;
    let threads = c.rng.range(2, 6) as usize;
    let ops = c.rng.range(20, 120);
    #[derive(Default)]
    struct Count {
        readers: AtomicI64,
        writers: AtomicI64,
    }
    let counts: Vec<Count> = sites.iter().map(|_| Count::default()).collect();
    let clock = AtomicU64::new(1);
    // (site, exclusive, called, returned, released); released is 0 for a refusal
    type Ev = (usize, bool, u64, u64, u64);
    let bad: Mutex<Option<String>> = Mutex::new(None);
    let barrier = Barrier::new(threads);
    let logs: Vec<Vec<Ev>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                let mut rng = c.rng.fork();
                let (sites, counts, clock, bad, barrier) = (&sites, &counts, &clock, &bad, &barrier);
                sc.spawn(move || {
                    let mut log: Vec<Ev> = Vec::new();
                    let mut held: Vec<(Held, usize, bool, usize)> = Vec::new();
                    let release = |h: (Held, usize, bool, usize), log: &mut Vec<Ev>| {
                        let (g, n, excl, at) = h;
                        if excl {
                            counts[n].writers.fetch_sub(1, Ordering::SeqCst);
                        } else {
                            counts[n].readers.fetch_sub(1, Ordering::SeqCst);
                        }
                        drop(g);
                        log[at].4 = clock.fetch_add(1, Ordering::SeqCst);
                    };
                    barrier.wait();
                    for _ in 0..ops {
                        if !held.is_empty() && rng.chance(1, 2) {
                            let n = rng.idx(held.len());
                            release(held.swap_remove(n), &mut log);
                            continue;
                        }
                        let n = rng.idx(sites.len());
                        let excl = !shareable(sites[n]) || rng.chance(1, 3);
                        let how = rng.below(2);
                        let called = clock.fetch_add(1, Ordering::SeqCst);
                        let r = catch(|| {
                            let mut h = store.take(sites[n], excl, how);
                            h.0.touch();
                            h
                        });
                        match r {
                            Ok(h) => {
                                let (r, w) = if excl {
                                    let w = counts[n].writers.fetch_add(1, Ordering::SeqCst);
                                    (counts[n].readers.load(Ordering::SeqCst), w)
                                } else {
                                    counts[n].readers.fetch_add(1, Ordering::SeqCst);
                                    (0, counts[n].writers.load(Ordering::SeqCst))
                                };
                                if r > 0 || w > 0 {
                                    *bad.lock().unwrap() = Some(format!(
                                        "{:?} was granted {} while it was held by {r} readers and {w} writers",
                                        sites[n],
                                        if excl { "exclusively" } else { "shared" }
                                    ));
                                }
                                for _ in 0..rng.below(60) {
                                    std::hint::spin_loop();
                                }
                                if rng.chance(1, 10) {
                                    std::thread::yield_now();
                                }
                                let ret = clock.fetch_add(1, Ordering::SeqCst);
                                log.push((n, excl, called, ret, u64::MAX));
                                held.push((h, n, excl, log.len() - 1));
                                if held.len() > 3 {
                                    release(held.remove(0), &mut log);
                                }
                            }
                            Err(_) => {
                                let ret = clock.fetch_add(1, Ordering::SeqCst);
                                log.push((n, excl, called, ret, 0));
                            }
                        }
                    }
                    for h in held.drain(..) {
                        release(h, &mut log);
                    }
                    log
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    if let Some(b) = bad.into_inner().unwrap() {
        return Err(b);
    }
    let all: Vec<(usize, Ev)> = logs
        .iter()
        .enumerate()
        .flat_map(|(t, l)| l.iter().map(move |e| (t, *e)))
        .collect();
    let mut contended = 0;
    for (t, (n, excl, called, ret, released)) in &all {
        c.mix(*n as u64 ^ (*excl as u64) << 8 ^ (*released == 0) as u64 ^ called << 9);
        if *released != 0 {
            continue;
        }
        contended += 1;
        // A refusal needs a conflicting holder at some moment between call and return.
        let excuse = all.iter().any(|(_, (m, e, from, _, to))| {
            *to != 0 && m == n && (*e || *excl) && from < ret && to > called
        });
        ensure!(
            excuse,
            "thread {t}: {} access to {:?} was refused, though nobody held it in conflict at any time in between",
            if *excl { "exclusive" } else { "shared" },
            sites[*n]
        );
    }
    for s in &sites {
        ensure_eq!(probe(store, *s), State::Free, "state of {s:?} after all threads released everything");
    }
    c.op("threads", threads as u64, all.len() as u64);
    c.count("concurrent attempts", all.len() as u64);
    c.count("concurrent refusals", contended);
    c.nontrivial = contended > 0;
    Ok(())
}

/// A refused attempt returns while the holder still holds.
fn prompt(c: &mut Case) -> Res {
    for attempt in 0..3 {
        let mut store = Store::new();
        let site = *c.rng.pick(&sites(&mut c.rng.clone(), 100));
        store.put(site, Tok::in_table(Ledger::new().table));
        let hold_excl = !shareable(site) || c.rng.bool();
        let want_excl = !shareable(site) || !hold_excl || c.rng.bool();
        let how = c.rng.below(2);
        let held = store.take(site, hold_excl, how);
        // However busy the machine is, some refusal out of many takes next to no time.
        let mut least = Duration::MAX;
        for _ in 0..60 {
            let start = Instant::now();
            ensure!(
                catch(|| drop(store.take(site, want_excl, how))).is_err(),
                "{site:?} was granted to two conflicting holders of one thread"
            );
            least = least.min(start.elapsed());
            if least < Duration::from_millis(2) {
                break;
            }
        }
        ensure!(least < Duration::from_millis(4), "a conflicting access to {site:?} takes at least {least:?} to be refused");
        let (returned, granted) = (Arc::new(AtomicBool::new(false)), Arc::new(AtomicBool::new(false)));
        let late = std::thread::scope(|sc| {
            let (r, g, st) = (returned.clone(), granted.clone(), &store);
            let h = sc.spawn(move || {
                let x = catch(|| drop(st.take(site, want_excl, how)));
                g.store(x.is_ok(), Ordering::SeqCst);
                r.store(true, Ordering::SeqCst);
            });
            let start = Instant::now();
            while !returned.load(Ordering::SeqCst) && start.elapsed() < Duration::from_secs(15) {
                std::thread::yield_now();
            }
            let late = !returned.load(Ordering::SeqCst);
            drop(held);
            h.join().unwrap();
            late
        });
        ensure!(
            late || !granted.load(Ordering::SeqCst),
            "{site:?} was granted to two conflicting holders"
        );
        c.op("prompt", hold_excl as u64, want_excl as u64);
        c.mix_str(&format!("{site:?}{how}"));
        if !late {
            c.nontrivial = true;
            c.count("refusals while held", 1);
            return Ok(());
        }
        // It only came back once the holder let go, with access.
        ensure!(
            !(granted.load(Ordering::SeqCst) && attempt == 2),
            "a conflicting access to {site:?} waits for the holder instead of being refused at once"
        );
    }
    Err("a conflicting access does not return while the holder holds".into())
}

// ---------------------------------------------------------------------------------------------
// C16

/// A map from type to value, as a model.
#[derive(Default)]
struct TypeMap {
    res: [Option<(u64, u64)>; K + 2],
}

/// A resource set, or the resources of a world.
enum Side {
    Set,
    World,
}

fn typed_store(c: &mut Case) -> Res {
    let ledger = Ledger::new();
    let mut store = Store::new();
    let mut set = TypeMap::default();
    let mut world = TypeMap::default();
    // component -> index -> (id, value)
    let mut comps: [Option<BTreeMap<u32, (u64, u64)>>; K] = Default::default();
    let mut entities: Vec<Entity> = Vec::new();
    let types = c.rng.range(1, K as u64 + 2);
    let mut extra: [Option<String>; 3] = [None, None, None];
    macro_rules! on {
        ($side:expr, $k:expr, $t:ident, $s:ident => $set:expr, $w:ident => $wld:expr) => {
            for_any_type!($k, $t => match $side {
                Side::Set => { let $s = &mut store.set; $set }
                Side::World => { let $w = &mut store.world; $wld }
            })
        };
    }
    for _ in 0..c.rng.range(10, 150) {
        let side = if c.rng.bool() { Side::Set } else { Side::World };
        let k = c.rng.below(types) as usize;
        let m = match side {
            Side::Set => &mut set.res[k],
            Side::World => &mut world.res[k],
        };
        match c.rng.below(14) {
            0..=2 => {
                let t = ledger.tok();
                let now = (t.id, t.val);
                let old = on!(side, k, T, s => s.insert(T::new(t)).map(T::into_tok), w => w.insert_resource(T::new(t)).map(T::into_tok));
                c.op("insert", k as u64, old.is_some() as u64);
                ensure_eq!(old.as_ref().map(|t| (t.id, t.val)), *m, "what insert of type {k} replaced");
                *m = Some(now);
            }
            3 => {
                let old = on!(side, k, T, s => s.remove::<T>().map(T::into_tok), w => w.remove_resource::<T>().map(T::into_tok));
                c.op("remove", k as u64, old.is_some() as u64);
                ensure_eq!(old.as_ref().map(|t| (t.id, t.val)), *m, "what remove of type {k} returned");
                *m = None;
            }
            4 => {
                let has = on!(side, k, T, s => s.contains::<T>(), w => w.contains_resource::<T>());
                c.op("contains", k as u64, has as u64);
                ensure_eq!(has, m.is_some(), "contains of type {k}");
            }
            5..=6 => {
                let k = k % K;
                let m = match side {
                    Side::Set => &set.res[k],
                    Side::World => &world.res[k],
                };
                let fetch = c.rng.bool();
                let got = catch(|| {
                    for_type!(k, T => match side {
                        Side::Set if fetch => { let r = store.set.fetch::<Read<T>>(); (r.tok().id, r.tok().val) }
                        Side::Set => { let r = store.set.borrow::<T>(); (r.tok().id, r.tok().val) }
                        Side::World if fetch => { let r = store.world.fetch::<ReadResource<T>>(); (r.tok().id, r.tok().val) }
                        Side::World => { let r = store.world.read_resource::<T>(); (r.tok().id, r.tok().val) }
                    })
                });
                c.op("borrow", k as u64, got.is_ok() as u64);
                ensure_eq!(got.ok(), *m, "what borrowing type {k} shows");
            }
            7..=8 => {
                let fetch = c.rng.bool();
                let n = c.rng.below(1 << 30);
                let f = |t: &mut Tok| {
                    let old = (t.id, t.val);
                    t.val = n;
                    old
                };
                let got = catch(|| {
                    for_any_type!(k, T => match side {
                        Side::Set if fetch => f(store.set.fetch::<Write<T>>().tok_mut()),
                        Side::Set => f(store.set.borrow_mut::<T>().tok_mut()),
                        Side::World if fetch => f(store.world.fetch::<WriteResource<T>>().tok_mut()),
                        Side::World => f(store.world.write_resource::<T>().tok_mut()),
                    })
                });
                c.op("borrow_mut", k as u64, got.is_ok() as u64);
                ensure_eq!(got.ok(), *m, "what borrowing type {k} mutably shows");
                m.as_mut().map(|m| m.1 = n);
            }
            9 => {
                let n = c.rng.below(1 << 30);
                let got = catch(|| {
                    let t = on!(side, k, T, s => s.get_mut::<T>().tok_mut(), w => w.get_resource_mut::<T>().tok_mut());
                    let old = (t.id, t.val);
                    t.val = n;
                    old
                });
                c.op("get_mut", k as u64, got.is_ok() as u64);
                ensure_eq!(got.ok(), *m, "what direct access to type {k} shows");
                m.as_mut().map(|m| m.1 = n);
            }
            // Component types of the world.
            10 => {
                let k = k % K;
                let old = for_type!(k, T => store.world.insert_component::<T>().map(|s| contents(&s)));
                c.op("insert_component", k as u64, old.is_some() as u64);
                ensure_eq!(old, comps[k], "the storage that registering component type {k} returned");
                comps[k] = Some(BTreeMap::new());
                let now = for_type!(k, T => contents(store.world.read_component::<T>().storage()));
                ensure!(now.is_empty(), "component type {k} was registered and has {now:?}");
            }
            11 => {
                let k = k % K;
                if c.rng.chance(1, 2) {
                    let old = for_type!(k, T => store.world.remove_component::<T>().map(|s| contents(&s)));
                    c.op("remove_component", k as u64, old.is_some() as u64);
                    ensure_eq!(old, comps[k], "the storage that removing component type {k} returned");
                    comps[k] = None;
                }
                let has = for_type!(k, T => store.world.contains_component::<T>());
                ensure_eq!(has, comps[k].is_some(), "contains_component of type {k}");
            }
            12 => {
                let k = k % K;
                if entities.len() < 6 {
                    entities.push(store.world.create_entity());
                }
                let e = *c.rng.pick(&entities);
                let t = ledger.tok();
                let now = (t.id, t.val);
                let direct = c.rng.bool();
                let r = catch(|| {
                    for_type!(k, T => {
                        if direct {
                            store.world.get_component_mut::<T>().insert(e, T::new(t)).unwrap()
                        } else {
                            store.world.write_component::<T>().insert(e, T::new(t)).unwrap()
                        }
                        .map(|x| (x.tok().id, x.tok().val))
                    })
                });
                c.op("component insert", k as u64, r.is_ok() as u64);
                match (&mut comps[k], r) {
                    (Some(m), Ok(r)) => {
                        ensure_eq!(r, m.insert(e.index(), now), "what inserting a component replaced")
                    }
                    (None, Err(_)) => {}
                    (m, r) => {
                        return Err(format!(
                            "component type {k} is {}registered and inserting gave {r:?}",
                            if m.is_some() { "" } else { "not " }
                        ))
                    }
                }
            }
            _ => {
                // Types of other shapes, among them ones without size and unsized contents.
                let n = c.rng.idx(3);
                let s = format!("{}", c.rng.below(1000));
                macro_rules! with {
                    ($t:ty, $new:expr, $show:expr) => {{
                        let old: Option<$t> = store.set.insert::<$t>($new);
                        ensure_eq!(old.map(|o| $show(&o)), extra[n].clone(), "what was replaced");
                        extra[n] = Some($show(&*store.set.borrow::<$t>()));
                    }};
                }
                match n {
                    0 => with!((), (), |_: &()| String::new()),
                    1 => with!(String, s.clone(), |x: &String| x.clone()),
                    _ => with!(Box<dyn Any + Send + Sync>, Box::new(s.clone()), |x: &Box<dyn Any + Send + Sync>| x
                        .downcast_ref::<String>()
                        .unwrap()
                        .clone()),
                }
                c.op("other shapes", n as u64, 0);
            }
        }
        // Everything else is as it was.
        for k in 0..K + 2 {
            for (side, m) in [(Side::Set, &set.res[k]), (Side::World, &world.res[k])] {
                let has = on!(side, k, T, s => s.contains::<T>(), w => w.contains_resource::<T>());
                ensure_eq!(has, m.is_some(), "presence of type {k} after an operation on another");
                if let Some(m) = m {
                    let t = on!(side, k, T, s => s.get_mut::<T>().tok_mut(), w => w.get_resource_mut::<T>().tok_mut());
                    ensure!(t.sane(), "the value of type {k} is damaged");
                    ensure_eq!((t.id, t.val), *m, "value of type {k} after an operation on another");
                }
            }
            if k < K {
                let has = for_type!(k, T => store.world.contains_component::<T>());
                ensure_eq!(has, comps[k].is_some(), "presence of component type {k}");
                if let Some(m) = &comps[k] {
                    let now = for_type!(k, T => contents(store.world.read_component::<T>().storage()));
                    ensure_eq!(now, *m, "contents of component type {k}");
                }
            }
        }
        c.count("states compared", 1);
    }
    c.nontrivial = c.ops.len() > 5;
    Ok(())
}

fn contents<S: RawStorage>(s: &MaskedStorage<S>) -> BTreeMap<u32, (u64, u64)>
where
    S::Item: Thing,
{
    use goggles::{hibitset::BitSetLike, IntoJoinExt};
    let m: BTreeMap<u32, (u64, u64)> = s
        .mask()
        .iter()
        .zip(s.join())
        .map(|(i, t)| (i, (t.tok().id, t.tok().val)))
        .collect();
    m
}

// ---------------------------------------------------------------------------------------------
// C17

/// What a request is made of.
#[derive(Clone, Debug)]
enum Req {
    Nothing,
    Entities,
    Read(Site),
    Write(Site),
    Tuple(Vec<Req>),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Access {
    Entities,
    At(Site),
}

impl Req {
    fn declared(&self) -> Option<(BTreeSet<Access>, BTreeSet<Access>)> {
        let (mut r, mut w) = (BTreeSet::new(), BTreeSet::new());
        match self {
            Req::Nothing => {}
            Req::Entities => {
                r.insert(Access::Entities);
            }
            Req::Read(s) => {
                if let Site::Comp(_) = s {
                    r.insert(Access::Entities);
                }
                r.insert(Access::At(*s));
            }
            Req::Write(s) => {
                if let Site::Comp(_) = s {
                    r.insert(Access::Entities);
                }
                w.insert(Access::At(*s));
            }
            Req::Tuple(l) => {
                for q in l {
                    let (qr, qw) = q.declared()?;
                    if qw.iter().any(|x| r.contains(x) || w.contains(x)) || qr.iter().any(|x| w.contains(x)) {
                        return None;
                    }
                    r.extend(qr);
                    w.extend(qw);
                }
            }
        }
        Some((r, w))
    }
}

thread_local! {
    /// What each member of the requested tuple stands for.
    static SLOTS: RefCell<Vec<Req>> = const { RefCell::new(Vec::new()) };
    static NESTED: RefCell<Vec<Vec<Req>>> = const { RefCell::new(Vec::new()) };
}

fn slot(i: usize) -> Req {
    SLOTS.with(|s| s.borrow()[i].clone())
}

/// With the members of a nested tuple in place.
fn nested<T>(l: Vec<Req>, f: impl FnOnce() -> T) -> T {
    struct Back;
    impl Drop for Back {
        fn drop(&mut self) {
            let old = NESTED.with(|n| n.borrow_mut().pop().unwrap());
            SLOTS.with(|s| *s.borrow_mut() = old);
        }
    }
    let old = SLOTS.with(|s| std::mem::replace(&mut *s.borrow_mut(), l));
    NESTED.with(|n| n.borrow_mut().push(old));
    let _back = Back;
    f()
}

/// A member of a requested tuple: stands for one of the library's requests.
struct Slot<'a, const I: usize>(#[allow(dead_code)] Option<Box<dyn Any_ + 'a>>);

trait Any_ {}
impl<T> Any_ for T {}

impl<'a, const I: usize> FetchResources<'a, ResourceSet> for Slot<'a, I> {
    type Resources = RwResources<ResourceId>;

    fn check_resources() -> Result<Self::Resources, ResourceConflict> {
        match slot(I) {
            Req::Nothing => FetchNone::<ResourceSet, RwResources<ResourceId>>::check_resources(),
            Req::Read(Site::Set(k)) => for_type!(k, T => Read::<T>::check_resources()),
            Req::Write(Site::Set(k)) => for_any_type!(k, T => Write::<T>::check_resources()),
            Req::Tuple(l) => nested(l.clone(), || with_tuple_set(l.len(), None).0),
            q => unreachable!("{q:?}"),
        }
    }

    fn fetch(set: &'a ResourceSet) -> Self {
        Slot(Some(match slot(I) {
            Req::Nothing => Box::new(FetchNone::<ResourceSet, RwResources<ResourceId>>::fetch(set)),
            Req::Read(Site::Set(k)) => for_type!(k, T => Box::new(Read::<T>::fetch(set))),
            Req::Write(Site::Set(k)) => for_any_type!(k, T => Box::new(Write::<T>::fetch(set))),
            Req::Tuple(l) => nested(l.clone(), || with_tuple_set(l.len(), Some(set)).1.unwrap()),
            q => unreachable!("{q:?}"),
        }))
    }
}

impl<'a, const I: usize> FetchResources<'a, World> for Slot<'a, I> {
    type Resources = WorldResources;

    fn check_resources() -> Result<Self::Resources, ResourceConflict> {
        match slot(I) {
            Req::Nothing => FetchNone::<World, WorldResources>::check_resources(),
            Req::Entities => Entities::check_resources(),
            Req::Read(Site::Res(k)) => for_type!(k, T => ReadResource::<T>::check_resources()),
            Req::Write(Site::Res(k)) => for_any_type!(k, T => WriteResource::<T>::check_resources()),
            Req::Read(Site::Comp(k)) => for_type!(k, T => ReadComponent::<T>::check_resources()),
            Req::Write(Site::Comp(k)) => for_type!(k, T => WriteComponent::<T>::check_resources()),
            Req::Tuple(l) => nested(l.clone(), || with_tuple_world(l.len(), None).0),
            q => unreachable!("{q:?}"),
        }
    }

    fn fetch(world: &'a World) -> Self {
        Slot(Some(match slot(I) {
            Req::Nothing => Box::new(FetchNone::<World, WorldResources>::fetch(world)),
            Req::Entities => Box::new(Entities::fetch(world)),
            Req::Read(Site::Res(k)) => for_type!(k, T => Box::new(ReadResource::<T>::fetch(world))),
            Req::Write(Site::Res(k)) => for_any_type!(k, T => Box::new(WriteResource::<T>::fetch(world))),
            Req::Read(Site::Comp(k)) => for_type!(k, T => Box::new(ReadComponent::<T>::fetch(world))),
            Req::Write(Site::Comp(k)) => for_type!(k, T => Box::new(WriteComponent::<T>::fetch(world))),
            Req::Tuple(l) => nested(l.clone(), || with_tuple_world(l.len(), Some(world)).1.unwrap()),
            q => unreachable!("{q:?}"),
        }))
    }
}

macro_rules! slot_tuple {
    ($n:expr, $src:expr, $source:ty; $( $len:literal : $($i:literal)* ;)*) => {
        match $n {
            $( $len => {
                type T<'a> = ($(Slot<'a, $i>,)*);
                let r = <T as FetchResources<$source>>::check_resources();
                let f: Option<Box<dyn Any_ + '_>> = $src.map(|s| Box::new(<T as FetchResources<$source>>::fetch(s)) as Box<dyn Any_ + '_>);
                (r, f)
            } )*
            _ => unreachable!(),
        }
    };
}

macro_rules! slot_tuples {
    ($name:ident, $source:ty, $res:ty) => {
        /// The library's tuple of that many members: what it declares, and what it fetches.
        fn $name<'a>(n: usize, src: Option<&'a $source>) -> (Result<$res, ResourceConflict>, Option<Box<dyn Any_ + 'a>>) {
            slot_tuple! { n, src, $source;
                1: 0;
                2: 0 1;
                3: 0 1 2;
                4: 0 1 2 3;
                5: 0 1 2 3 4;
                6: 0 1 2 3 4 5;
                7: 0 1 2 3 4 5 6;
                8: 0 1 2 3 4 5 6 7;
                9: 0 1 2 3 4 5 6 7 8;
                10: 0 1 2 3 4 5 6 7 8 9;
                11: 0 1 2 3 4 5 6 7 8 9 10;
                12: 0 1 2 3 4 5 6 7 8 9 10 11;
                13: 0 1 2 3 4 5 6 7 8 9 10 11 12;
                14: 0 1 2 3 4 5 6 7 8 9 10 11 12 13;
                15: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14;
                16: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15;
                17: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16;
                18: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17;
                19: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18;
                20: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19;
                21: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20;
                22: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21;
                23: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22;
                24: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23;
                25: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24;
                26: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25;
            }
        }
    };
}

slot_tuples!(with_tuple_set, ResourceSet, RwResources<ResourceId>);
slot_tuples!(with_tuple_world, World, WorldResources);

fn world_id(s: Site) -> WorldResourceId {
    match s {
        Site::Res(k) => for_any_type!(k, T => WorldResourceId::resource::<T>()),
        Site::Comp(k) => for_type!(k, T => WorldResourceId::component::<T>()),
        _ => unreachable!(),
    }
}

fn random_req(rng: &mut Rng, world: bool, writes: u64, depth: u32, types: usize) -> Req {
    match rng.below(20) {
        0 => return Req::Nothing,
        1..=2 if world => return Req::Entities,
        3 if depth > 0 => {
            let n = rng.range(1, 3) as usize;
            return Req::Tuple((0..n).map(|_| random_req(rng, world, writes, depth - 1, types)).collect());
        }
        _ => {}
    }
    let write = rng.chance(writes, 16);
    let k = rng.idx(if write { types + 2 } else { types });
    let k = if k >= types { K + (k - types) } else { k };
    let site = if !world {
        Site::Set(k)
    } else if k < K && rng.bool() {
        Site::Comp(k)
    } else {
        Site::Res(k)
    };
    if write {
        Req::Write(site)
    } else {
        Req::Read(site)
    }
}

fn requests(c: &mut Case) -> Res {
    let ledger = Ledger::new();
    let mut store = Store::new();
    let world = c.rng.bool();
    let n = match c.rng.below(5) {
        0 => 1,
        1..=2 => c.rng.range(2, 5) as usize,
        3 => c.rng.range(5, 12) as usize,
        _ => c.rng.range(13, 26) as usize,
    };
    let types = c.rng.range(1, K as u64) as usize;
    // Few writes make long tuples without conflicts likely; then sometimes one is added.
    let writes = *c.rng.pick(&[0, 0, 1, 3, 8]);
    let mut reqs: Vec<Req> = if c.rng.chance(1, 3) {
        // All different: as many writes as there are places.
        let mut places: Vec<Site> = sites(&mut c.rng, 100)
            .into_iter()
            .filter(|s| matches!(s, Site::Set(_)) != world)
            .collect();
        let mut v: Vec<Req> = (0..n)
            .map(|_| match places.pop() {
                Some(s) if !shareable(s) || c.rng.bool() => Req::Write(s),
                Some(s) => Req::Read(s),
                None if world && c.rng.bool() => Req::Entities,
                None => Req::Nothing,
            })
            .collect();
        c.rng.shuffle(&mut v);
        v
    } else {
        (0..n).map(|_| random_req(&mut c.rng, world, writes, 2, types)).collect()
    };
    if c.rng.chance(1, 4) {
        // Repeat one member somewhere else, perhaps the other way.
        let (a, b) = (c.rng.idx(n), c.rng.idx(n));
        let flip = c.rng.bool();
        reqs[b] = match reqs[a].clone() {
            Req::Read(s) if flip => Req::Write(s),
            Req::Write(s) if flip && shareable(s) => Req::Read(s),
            r => r,
        };
    }
    let want = Req::Tuple(reqs.clone()).declared();
    let all: Vec<Site> = sites(&mut c.rng, 100);
    let mut present: BTreeSet<Site> = BTreeSet::new();
    let missing = c.rng.chance(1, 5);
    for s in &all {
        if !(missing && c.rng.chance(1, 6)) {
            store.put(*s, ledger.tok());
            present.insert(*s);
        }
    }
    // What is declared.
    SLOTS.with(|s| *s.borrow_mut() = reqs.clone());
    let text = format!("{reqs:?}");
    c.op("request", n as u64, want.is_some() as u64);
    c.mix_str(&text);
    c.max("largest tuple", n as u64);
    c.count(if want.is_some() { "consistent requests" } else { "conflicting requests" }, 1);
    let declared = |r: &BTreeSet<Access>| -> Vec<Access> { r.iter().cloned().collect() };
    if world {
        let got = with_tuple_world(n, None).0;
        match (&got, &want) {
            (Err(_), None) => {}
            (Ok(g), Some((r, w))) => {
                let id = |a: &Access| match a {
                    Access::Entities => WorldResourceId::Entities,
                    Access::At(s) => world_id(*s),
                };
                let gr: Vec<_> = g.reads().copied().collect();
                let gw: Vec<_> = g.writes().copied().collect();
                let (sr, sw): (BTreeSet<_>, BTreeSet<_>) = (gr.iter().copied().collect(), gw.iter().copied().collect());
                ensure!(gr.len() == sr.len() && gw.len() == sw.len(), "an access is declared twice");
                ensure!(
                    sr == r.iter().map(id).collect() && sw == w.iter().map(id).collect(),
                    "{text} declares {sr:?} read and {sw:?} written, expected {:?} and {:?}",
                    declared(r),
                    declared(w)
                );
            }
            (Ok(_), None) => return Err(format!("{text} has a conflict that was not reported")),
            (Err(e), Some(_)) => return Err(format!("{text} was reported as conflicting: {e}")),
        }
    } else {
        let got = with_tuple_set(n, None).0;
        match (&got, &want) {
            (Err(_), None) => {}
            (Ok(g), Some((r, w))) => {
                let id = |a: &Access| match a {
                    Access::At(Site::Set(k)) => for_any_type!(*k, T => ResourceId::of::<T>()),
                    _ => unreachable!(),
                };
                let gr: Vec<_> = g.reads().copied().collect();
                let gw: Vec<_> = g.writes().copied().collect();
                let (sr, sw): (BTreeSet<_>, BTreeSet<_>) = (gr.iter().copied().collect(), gw.iter().copied().collect());
                ensure!(gr.len() == sr.len() && gw.len() == sw.len(), "an access is declared twice");
                ensure!(
                    sr == r.iter().map(id).collect() && sw == w.iter().map(id).collect(),
                    "{text} declares {sr:?} read and {sw:?} written, expected {:?} and {:?}",
                    declared(r),
                    declared(w)
                );
            }
            (Ok(_), None) => return Err(format!("{text} has a conflict that was not reported")),
            (Err(e), Some(_)) => return Err(format!("{text} was reported as conflicting: {e}")),
        }
    }
    // What is taken, with some places held by others.
    let mut others: Vec<Held> = Vec::new();
    let mut held: BTreeMap<Site, State> = BTreeMap::new();
    let crowd = *c.rng.pick(&[0, 0, 1, 4]);
    for s in &all {
        if present.contains(s) && c.rng.chance(crowd, 16) {
            let excl = !shareable(*s) || c.rng.chance(1, 3);
            others.push(store.take(*s, excl, c.rng.below(2)));
            held.insert(*s, if excl { State::Excl } else { State::Shared });
        }
    }
    let ok = match &want {
        None => false,
        Some((r, w)) => {
            let fine = |a: &Access, write: bool| match a {
                Access::Entities => true,
                Access::At(s) => {
                    present.contains(s)
                        && match held.get(s) {
                            None => true,
                            Some(State::Shared) => !write,
                            _ => false,
                        }
                }
            };
            r.iter().all(|a| fine(a, false)) && w.iter().all(|a| fine(a, true))
        }
    };
    let states = |store: &Store| -> BTreeMap<Site, State> { all.iter().map(|s| (*s, probe(store, *s))).collect() };
    let before: BTreeMap<Site, State> = all
        .iter()
        .map(|s| {
            let st = if present.contains(s) {
                held.get(s).copied().unwrap_or(State::Free)
            } else {
                State::Absent
            };
            (*s, st)
        })
        .collect();
    ensure_eq!(states(&store), before, "states before the fetch");
    let fetched = catch(|| {
        if world {
            with_tuple_world(n, Some(&store.world)).1
        } else {
            with_tuple_set(n, Some(&store.set)).1
        }
    });
    match &fetched {
        Ok(_) => {
            ensure!(ok, "{text} was fetched although something it needs is absent or held in conflict: {held:?}");
            c.count("fetches granted", 1);
            let (r, w) = want.as_ref().unwrap();
            let mut after = before.clone();
            for a in r {
                if let Access::At(s) = a {
                    after.insert(*s, State::Shared);
                }
            }
            for a in w {
                if let Access::At(s) = a {
                    after.insert(*s, State::Excl);
                }
            }
            ensure_eq!(states(&store), after, "states while {text} is held");
        }
        Err(p) => {
            ensure!(!ok, "{text} could not be fetched although nothing it needs is held in conflict: {}", p.msg);
            c.count("fetches refused", 1);
        }
    }
    drop(fetched);
    ensure_eq!(states(&store), before, "states after {text} was released");
    drop(others);
    c.nontrivial = true;
    Ok(())
}

/// Requests written out as types, including the most a tuple can have.
fn plain_requests(c: &mut Case) -> Res {
    fn world<'a, F: FetchResources<'a, World, Resources = WorldResources>>(
        reads: &[WorldResourceId],
        writes: Option<&[WorldResourceId]>,
    ) -> Res {
        let got = F::check_resources();
        match (got, writes) {
            (Err(_), None) => Ok(()),
            (Ok(g), Some(writes)) => {
                let r: BTreeSet<_> = g.reads().copied().collect();
                let w: BTreeSet<_> = g.writes().copied().collect();
                ensure_eq!(r, reads.iter().copied().collect(), "reads of {}", std::any::type_name::<F>());
                ensure_eq!(w, writes.iter().copied().collect(), "writes of {}", std::any::type_name::<F>());
                Ok(())
            }
            (g, _) => Err(format!("{} declares {g:?}", std::any::type_name::<F>())),
        }
    }
    type Rr<'a, const N: usize> = ReadResource<'a, R<N>>;
    type Wr<'a, const N: usize> = WriteResource<'a, R<N>>;
    let e = WorldResourceId::Entities;
    let r = |k| world_id(Site::Res(k));
    let k = |k| world_id(Site::Comp(k));
    world::<(Entities,)>(&[e], Some(&[]))?;
    world::<Entities>(&[e], Some(&[]))?;
    world::<Rr<0>>(&[r(0)], Some(&[]))?;
    world::<Wr<0>>(&[], Some(&[r(0)]))?;
    world::<ReadComponent<R<0>>>(&[e, k(0)], Some(&[]))?;
    world::<WriteComponent<R<0>>>(&[e], Some(&[k(0)]))?;
    world::<(Wr<0>, WriteComponent<R<0>>, Entities)>(&[e], Some(&[r(0), k(0)]))?;
    world::<(Rr<0>, (Rr<0>, (Rr<1>, Wr<2>)))>(&[r(0), r(1)], Some(&[r(2)]))?;
    world::<(Rr<0>, (Rr<1>, (Wr<0>, Wr<2>)))>(&[], None)?;
    world::<(Entities, WriteComponent<R<1>>, ReadComponent<R<1>>)>(&[], None)?;
    world::<(
        Rr<0>, Rr<1>, Rr<0>, Rr<1>, Rr<0>, Rr<1>, Rr<0>, Rr<1>, Rr<0>, Rr<1>, Rr<0>, Rr<1>, Rr<0>,
        Rr<1>, Rr<0>, Rr<1>, Rr<0>, Rr<1>, Rr<0>, Rr<1>, Rr<0>, Rr<1>, Rr<0>, Rr<1>, Wr<2>, Wr<3>,
    )>(&[r(0), r(1)], Some(&[r(2), r(3)]))?;
    world::<(
        Wr<3>, Rr<1>, Rr<0>, Rr<1>, Rr<0>, Rr<1>, Rr<0>, Rr<1>, Rr<0>, Rr<1>, Rr<0>, Rr<1>, Rr<0>,
        Rr<1>, Rr<0>, Rr<1>, Rr<0>, Rr<1>, Rr<0>, Rr<1>, Rr<0>, Rr<1>, Rr<0>, Rr<1>, Wr<2>, Rr<3>,
    )>(&[], None)?;
    // All identifiers are different.
    let mut ids: BTreeSet<WorldResourceId> = BTreeSet::new();
    ids.insert(e);
    for n in 0..K + 2 {
        ids.insert(r(n));
    }
    for n in 0..K {
        ids.insert(k(n));
    }
    ensure_eq!(ids.len(), 1 + K + 2 + K, "different identifiers of different places");
    c.op("plain requests", c.no, 0);
    c.count("requests of plain types", 13);
    c.nontrivial = true;
    Ok(())
}

include!("../inc/shapes.rs");
include!("../inc/own_types.rs");

// ---------------------------------------------------------------------------------------------
// C18

#[derive(Clone, Default, Debug, PartialEq)]
struct Rw {
    reads: BTreeSet<u32>,
    writes: BTreeSet<u32>,
}

impl Rw {
    fn read(&mut self, x: u32) {
        if !self.writes.contains(&x) {
            self.reads.insert(x);
        }
    }
    fn write(&mut self, x: u32) {
        self.reads.remove(&x);
        self.writes.insert(x);
    }
    fn conflicts(&self, o: &Rw) -> bool {
        self.writes.iter().any(|x| o.writes.contains(x) || o.reads.contains(x))
            || o.writes.iter().any(|x| self.reads.contains(x))
    }
}

trait Id: Clone + Eq + std::hash::Hash + Ord + std::fmt::Debug {
    /// How many there are for large sets.
    const MANY: u64;
    fn id(n: u32) -> Self;
}
impl Id for u32 {
    const MANY: u64 = 5000;
    fn id(n: u32) -> u32 {
        n
    }
}
impl Id for String {
    const MANY: u64 = 1500;
    fn id(n: u32) -> String {
        format!("resource {n}")
    }
}
impl Id for (bool, u8) {
    const MANY: u64 = 508;
    fn id(n: u32) -> (bool, u8) {
        (n % 2 == 0, (n / 2) as u8)
    }
}
/// All in the same hash bucket.
#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
struct Collide(u32);
impl std::hash::Hash for Collide {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        h.write_u8(0)
    }
}
impl Id for Collide {
    const MANY: u64 = 250;
    fn id(n: u32) -> Collide {
        Collide(n)
    }
}

fn matches<T: Id>(r: &RwResources<T>, m: &Rw, what: &str) -> Res {
    let gr: Vec<T> = r.reads().cloned().collect();
    let gw: Vec<T> = r.writes().cloned().collect();
    let sr: BTreeSet<T> = gr.iter().cloned().collect();
    let sw: BTreeSet<T> = gw.iter().cloned().collect();
    ensure!(gr.len() == sr.len() && gw.len() == sw.len(), "{what}: listed twice: {gr:?} {gw:?}");
    ensure!(
        sr == m.reads.iter().map(|x| T::id(*x)).collect() && sw == m.writes.iter().map(|x| T::id(*x)).collect(),
        "{what}: reads {sr:?} and writes {sw:?}, expected {:?} and {:?}",
        m.reads,
        m.writes
    );
    Ok(())
}

fn access_sets<T: Id>(c: &mut Case) -> Res {
    let many = c.rng.chance(1, 24);
    let n = if many { c.rng.range(100, T::MANY) } else { *c.rng.pick(&[2, 3, 5, 12, 60]) };
    let mut pool: Vec<(RwResources<T>, Rw)> = vec![(RwResources::new(), Rw::default()), (RwResources::default(), Rw::default())];
    let list = |rng: &mut Rng, max: u64| -> Vec<u32> {
        if n >= 60 && rng.chance(1, 3) {
            // Many from a part of all, so that large sets have little or nothing in common.
            let from = rng.below(n);
            let width = rng.range(1, n - from);
            return (0..rng.below(2 * width.min(400))).map(|_| (from + rng.below(width)) as u32).collect();
        }
        (0..rng.below(max)).map(|_| rng.below(n) as u32).collect()
    };
    for _ in 0..c.rng.range(5, if many { 15 } else { 50 }) {
        let at = c.rng.idx(pool.len());
        c.max("members of an access set", (pool[at].1.reads.len() + pool[at].1.writes.len()) as u64);
        let what;
        match c.rng.below(10) {
            0 => {
                let (r, w) = (list(&mut c.rng, 6), list(&mut c.rng, 6));
                what = format!("from_iters({r:?}, {w:?})");
                let mut m = Rw::default();
                r.iter().for_each(|x| m.read(*x));
                w.iter().for_each(|x| m.write(*x));
                let s = RwResources::from_iters(r.into_iter().map(T::id), w.into_iter().map(T::id));
                pool.push((s, m));
            }
            1 => {
                let x = c.rng.below(n) as u32;
                what = format!("add_read({x})");
                pool[at].0.add_read(T::id(x));
                pool[at].1.read(x);
            }
            2 => {
                let x = c.rng.below(n) as u32;
                what = format!("add_write({x})");
                pool[at].0.add_write(T::id(x));
                pool[at].1.write(x);
            }
            3 => {
                let l = list(&mut c.rng, 6);
                what = format!("add_reads({l:?})");
                pool[at].0.add_reads(l.iter().map(|x| T::id(*x)));
                l.iter().for_each(|x| pool[at].1.read(*x));
            }
            4 => {
                let l = list(&mut c.rng, 6);
                what = format!("add_writes({l:?})");
                pool[at].0.add_writes(l.iter().map(|x| T::id(*x)));
                l.iter().for_each(|x| pool[at].1.write(*x));
            }
            5 => {
                let x = c.rng.below(n) as u32;
                what = format!("read({x})");
                let (s, mut m) = pool[at].clone();
                m.read(x);
                pool.push((s.read(T::id(x)), m));
            }
            6 => {
                let x = c.rng.below(n) as u32;
                what = format!("write({x})");
                let (s, mut m) = pool[at].clone();
                m.write(x);
                pool.push((s.write(T::id(x)), m));
            }
            7..=8 => {
                // Union, which conflicts with a third one exactly when one of its parts does.
                let (a, b) = (pool[at].clone(), c.rng.pick(&pool).clone());
                let mut u = a.0.clone();
                u.union(&b.0);
                let mut m = a.1.clone();
                b.1.reads.iter().for_each(|x| m.read(*x));
                b.1.writes.iter().for_each(|x| m.write(*x));
                what = format!("union of {:?} and {:?}", a.1, b.1);
                for (s, sm) in &pool {
                    let parts = a.0.conflicts_with(s) || b.0.conflicts_with(s);
                    ensure!(
                        u.conflicts_with(s) == parts && s.conflicts_with(&u) == parts,
                        "the {what} {} {sm:?}, its parts do{}",
                        if u.conflicts_with(s) { "conflicts with" } else { "does not conflict with" },
                        if parts { "" } else { " not" }
                    );
                }
                matches(&b.0, &b.1, "the other side of a union")?;
                pool.push((u, m));
            }
            _ => {
                // Mapping may make different resources the same.
                let d = *c.rng.pick(&[1u32, 2, 3]);
                let by = c.rng.below(3) as u32;
                let f = |x: u32| ((x + by) / d) % n as u32;
                what = format!("map of {:?} by (x + {by}) / {d} mod {n}", pool[at].1);
                let inv: BTreeMap<T, u32> = (0..n as u32 + 4).map(|x| (T::id(x), x)).collect();
                let s: RwResources<T> = pool[at].0.map(|x| T::id(f(inv[x])));
                let mut m = Rw::default();
                pool[at].1.reads.iter().for_each(|x| m.read(f(*x)));
                pool[at].1.writes.iter().for_each(|x| m.write(f(*x)));
                pool.push((s, m));
            }
        }
        let last = pool.len() - 1;
        matches(&pool[at].0, &pool[at].1, &what)?;
        matches(&pool[last].0, &pool[last].1, &what)?;
        for n in [at, last] {
            for (s, m) in &pool {
                let want = m.conflicts(&pool[n].1);
                let (ab, ba) = (s.conflicts_with(&pool[n].0), pool[n].0.conflicts_with(s));
                ensure!(
                    ab == want && ba == want,
                    "conflict between {m:?} and {:?}: {ab} one way, {ba} the other, expected {want}",
                    pool[n].1
                );
                c.count(if want { "conflicting pairs" } else { "compatible pairs" }, 1);
            }
        }
        c.op("build", at as u64, 0);
        c.mix_str(&what);
        if pool.len() > 8 {
            let drop = c.rng.idx(pool.len());
            pool.swap_remove(drop);
        }
    }
    c.nontrivial = true;
    Ok(())
}

const SHAPES_TEXT: &str = "random operations on 2 to 5, or all, of 34 types of many shapes (without size, generic, large, overaligned, of the same full name), each as a resource of a set, a resource of a world and a component; after every operation everything is compared, and while a place is held all others are tried; every case is non-trivial";

const OWN_TEXT: &str = "random operations on resources, in a set and a world, of the library's own types (storages of components, sets, worlds, allocators, boxed values of any type) next to components with such storages, compared with a map from type to value after each, and what can be borrowed next to what; every case is non-trivial";

fn main() {
    let opts = Opts::parse();
    let r = Runner::new(opts.clone());
    let t = opts.threads;
    match opts.id.as_str() {
        "C15" => {
            r.run(
                "prompt-refusal",
                "a conflicting access while the holder waits for it to return, and the least time a refusal takes",
                opts.n(60, 600),
                2,
                prompt,
            );
            r.run(
                "borrows",
                "random taking, touching, releasing and leaking of guards on up to 8 of 22 places (resources of a set and of a world, component storages), present or not, in one thread, against a model of the holders; every case is non-trivial",
                opts.n(3000, 50_000),
                t,
                borrows,
            );
            r.run(
                "borrow-threads",
                "2 to 6 threads taking and releasing 1 to 3 places; overlaps are counted by the holders, and each refusal must have a conflicting holder; non-trivial: something was refused",
                opts.n(1500, 25_000),
                (t / 2).max(2),
                borrow_threads,
            );
            r.run("shapes", SHAPES_TEXT, opts.n(4000, 60_000), t, shapes);
            r.run("own-types", OWN_TEXT, opts.n(1000, 20_000), t, own_types);
        }
        "C16" => {
          r.run("own-types", OWN_TEXT, opts.n(1000, 20_000), t, own_types);
          r.run("shapes", SHAPES_TEXT, opts.n(4000, 60_000), t, shapes);
          r.run(
            "typed-store",
            "random operations on the resources of a set and of a world and on component registrations of the same types, everything compared after each; non-trivial: more than 5 operations",
            opts.n(3000, 50_000),
            t,
            typed_store,
          );
        }
        "C17" => {
            r.run(
                "requests",
                "tuples of 1 to 26 random requests (nothing, entities, reads, writes, nested tuples) with repetitions, fetched while some places are held by others or absent; declared accesses, the state of every place while held and after release; told apart by the request",
                opts.n(4000, 60_000),
                t,
                requests,
            );
            r.run("plain-requests", "requests written out as types", 4, 2, plain_requests);
            r.run("shape-requests", "identifiers and declared accesses of 34 types of many shapes (without size, generic, large, overaligned, of the same full name)", 2, 2, shape_requests);
            r.run("shapes", SHAPES_TEXT, opts.n(2000, 30_000), t, shapes);
        }
        "C18" => {
            r.run(
                "access-sets",
                "access sets over 2 to 60 resources built in every way, contents compared and every pair asked for conflicts in both orders; told apart by the way of building",
                opts.n(8000, 120_000),
                t,
                |c| match c.no % 4 {
                    0 => access_sets::<u32>(c),
                    1 => access_sets::<String>(c),
                    2 => access_sets::<(bool, u8)>(c),
                    _ => access_sets::<Collide>(c),
                },
            );
        }
        id => panic!("unknown property {id}"),
    }
    r.finish();
}
