// C19 with the declarations of real requests: schedules of systems over a world, conflicting or not.
// What a system declares is what its request type declares; the verdict and the union are compared with a
// model of the types requested.  What is accepted is run, every system fetching its request and holding it.
use std::sync::{
    atomic::{AtomicU64, Ordering},
    Arc,
};

use goggles::{
    system::{ParList, SeqList},
    FetchResources, Par, Pool, RayonPool, ReadResource, ResourceConflict, Seq, SeqPool, System,
    WorldResourceId, WorldResources, WriteResource,
};

use super::parallel::{pools, value, Failed, Res_, Threads, RK, SHARED};

/// Also a resource of the type of a component, and one without size.
pub struct Nothing;

/// (component?, number, written?)
type Need = (bool, usize, bool);

/// Who holds what: readers, and writers times 2³².
struct Held([AtomicU64; K + RK + 2], AtomicU64);

impl Held {
    fn enter(&self, needs: &[Need]) {
        for (comp, k, write) in needs {
            let n = self.0[if *comp { *k } else { K + k }].fetch_add(if *write { 1 << 32 } else { 1 }, Ordering::SeqCst);
            assert!(n < 1 << 32 && (!write || n == 0), "systems with conflicting needs ran at the same time: {needs:?}, {n:#x}");
        }
        self.1.fetch_add(1, Ordering::SeqCst);
    }
    fn leave(&self, needs: &[Need]) {
        for (comp, k, write) in needs {
            self.0[if *comp { *k } else { K + k }].fetch_sub(if *write { 1 << 32 } else { 1 }, Ordering::SeqCst);
        }
    }
}

struct Asks<F: 'static>(Vec<Need>, u64, Arc<Held>, fn(&World, &mut dyn FnMut()), std::marker::PhantomData<fn() -> F>);

type DynS<P> = Box<dyn for<'a> System<&'a World, Resources = WorldResources, Pool = P, Error = Failed> + Send>;

/// A request type by number: the needs of the model, and a system making it.
struct Kind {
    needs: &'static [Need],
    declared: fn() -> Result<WorldResources, ResourceConflict>,
    hold: fn(&World, &mut dyn FnMut()),
}

macro_rules! kinds {
    ($($t:ty => [$(($c:literal $k:literal $w:literal))*];)*) => {
        const KINDS: &[Kind] = &[$(Kind {
            needs: &[$(($c, $k, $w)),*],
            declared: || <$t as FetchResources<World>>::check_resources(),
            hold: |w, f| {
                let r = w.fetch::<$t>();
                f();
                drop(r);
            },
        }),*];
    };
}

type R<'a, const N: usize> = ReadComponent<'a, C<N>>;
type W<'a, const N: usize> = WriteComponent<'a, C<N>>;
type RR<'a, const N: usize> = ReadResource<'a, Res_<N>>;
type WR<'a, const N: usize> = WriteResource<'a, Res_<N>>;
// Resource number RK is Nothing, RK + 1 is C<0>.

kinds! {
    Entities => [];
    (Entities,) => [];
    goggles::fetch_resources::FetchNone<World, WorldResources> => [];
    R<0> => [(true 0 false)];
    R<1> => [(true 1 false)];
    R<3> => [(true 3 false)];
    W<0> => [(true 0 true)];
    W<1> => [(true 1 true)];
    W<2> => [(true 2 true)];
    W<4> => [(true 4 true)];
    W<5> => [(true 5 true)];
    RR<0> => [(false 0 false)];
    RR<1> => [(false 1 false)];
    RR<3> => [(false 3 false)];
    WR<0> => [(false 0 true)];
    WR<1> => [(false 1 true)];
    WR<2> => [(false 2 true)];
    WR<3> => [(false 3 true)];
    ReadResource<Nothing> => [(false 4 false)];
    WriteResource<Nothing> => [(false 4 true)];
    ReadResource<C<0>> => [(false 5 false)];
    WriteResource<C<0>> => [(false 5 true)];
    (Entities, R<0>, W<1>) => [(true 0 false) (true 1 true)];
    (Entities, R<2>, R<2>) => [(true 2 false)];
    (R<0>, WriteResource<C<0>>) => [(true 0 false) (false 5 true)];
    (W<0>, ReadResource<C<0>>) => [(true 0 true) (false 5 false)];
    (W<3>, R<4>, R<5>) => [(true 3 true) (true 4 false) (true 5 false)];
    (R<0>, R<1>, R<2>, R<3>, R<4>, R<5>) => [(true 0 false) (true 1 false) (true 2 false) (true 3 false) (true 4 false) (true 5 false)];
    (WR<0>, RR<1>, (Entities, (W<2>, R<3>))) => [(false 0 true) (false 1 false) (true 2 true) (true 3 false)];
    ((W<5>, RR<2>), (RR<2>, RR<3>)) => [(true 5 true) (false 2 false) (false 3 false)];
    (WR<1>, WR<2>, WR<3>) => [(false 1 true) (false 2 true) (false 3 true)];
    (RR<0>, RR<1>, RR<2>, RR<3>, R<1>, Entities, Entities) => [(false 0 false) (false 1 false) (false 2 false) (false 3 false) (true 1 false)];
    // Conflicting with themselves.
    (R<0>, W<0>) => [(true 0 false) (true 0 true)];
    (W<1>, W<1>) => [(true 1 true) (true 1 true)];
    (WR<0>, RR<0>) => [(false 0 true) (false 0 false)];
    (W<2>, (Entities, (R<3>, R<2>))) => [(true 2 true) (true 3 false) (true 2 false)];
    (Entities, WR<2>, R<1>, WR<2>) => [(false 2 true) (true 1 false) (false 2 true)];
}
const SOUND: usize = 32;

impl<'a, P: Pool> System<&'a World> for Asks<P> {
    type Resources = WorldResources;
    type Pool = P;
    type Error = Failed;
    fn check_resources(&self) -> Result<WorldResources, ResourceConflict> {
        (KINDS[self.1 as usize & 63].declared)()
    }
    fn run(&mut self, _: &P, w: &'a World) -> Result<(), Failed> {
        (self.3)(w, &mut || {
            self.2.enter(&self.0);
            match self.1 >> 6 & 3 {
                0 => {}
                1 => std::thread::yield_now(),
                2 => (0..self.1 >> 8 & 0xfff).for_each(|_| std::hint::spin_loop()),
                _ => std::thread::sleep(std::time::Duration::from_micros(self.1 >> 8 & 63)),
            }
            self.2.leave(&self.0);
        });
        Ok(())
    }
}

#[derive(Clone, Debug)]
enum Plan {
    /// A kind, with how long it takes.
    Leaf(u64),
    Par(u8, Vec<Plan>),
    Seq(u8, Vec<Plan>),
}

#[derive(Default, Clone, Debug, PartialEq)]
struct Needs {
    reads: BTreeSet<WorldResourceId>,
    writes: BTreeSet<WorldResourceId>,
}

impl Needs {
    fn add(&mut self, o: &Needs) {
        self.writes.extend(&o.writes);
        self.reads.extend(&o.reads);
        self.reads.retain(|r| !self.writes.contains(r));
    }
    fn conflicts(&self, o: &Needs) -> bool {
        let clash = |a: &Needs, b: &Needs| a.writes.iter().any(|w| b.writes.contains(w) || b.reads.contains(w));
        clash(self, o) || clash(o, self)
    }
}

fn id(comp: bool, k: usize) -> WorldResourceId {
    match (comp, k) {
        (true, _) => for_comp!(k, T => WorldResourceId::component::<T>()),
        (_, 0) => WorldResourceId::resource::<Res_<0>>(),
        (_, 1) => WorldResourceId::resource::<Res_<1>>(),
        (_, 2) => WorldResourceId::resource::<Res_<2>>(),
        (_, 3) => WorldResourceId::resource::<Res_<3>>(),
        (_, 4) => WorldResourceId::resource::<Nothing>(),
        _ => WorldResourceId::resource::<C<0>>(),
    }
}

fn wants_entities(kind: usize) -> bool {
    kind < 2 || KINDS[kind].needs.iter().any(|n| n.0)
}

impl Plan {
    fn make<P: Pool + Sync + Send + 'static>(&self, h: &Arc<Held>) -> DynS<P> {
        match self {
            Plan::Leaf(n) => {
                let k = &KINDS[*n as usize & 63];
                Box::new(Asks::<P>(k.needs.to_vec(), *n, h.clone(), k.hold, std::marker::PhantomData))
            }
            Plan::Par(how, l) => {
                let mut v: Vec<DynS<P>> = l.iter().map(|t| t.make(h)).collect();
                v.reverse();
                let mut next = || v.pop().unwrap();
                match (l.len(), how) {
                    (2, 0) => Box::new(Par::new(next(), next())),
                    (3, 0) => Box::new(goggles::par!(next(), next(), next())),
                    (4, 0) => Box::new(goggles::par!(next(), next(), next(), next())),
                    (5, 0) => Box::new(goggles::par!(next(), next(), next(), next(), next())),
                    (3, 1) => Box::new(Par::new(Par::new(next(), next()), next())),
                    (4, 1) => Box::new(Par::new(Par::new(next(), next()), Par::new(next(), next()))),
                    (5, 1) => Box::new(Par::new(Box::new(goggles::par!(next(), next(), next())), Box::new(Par::new(next(), next())))),
                    _ => Box::new(ParList({ v.reverse(); v })),
                }
            }
            Plan::Seq(how, l) => {
                let mut v: Vec<DynS<P>> = l.iter().map(|t| t.make(h)).collect();
                v.reverse();
                let mut next = || v.pop().unwrap();
                match (l.len(), how) {
                    (2, 0) => Box::new(Seq::new(next(), next())),
                    (3, 0) => Box::new(goggles::seq!(next(), next(), next())),
                    (4, 0) => Box::new(goggles::seq!(next(), next(), next(), next())),
                    (5, 0) => Box::new(goggles::seq!(next(), next(), next(), next(), next())),
                    (3, 1) => Box::new(Seq::new(Seq::new(next(), next()), next())),
                    (4, 1) => Box::new(Seq::new(Seq::new(next(), next()), Seq::new(next(), next()))),
                    (5, 1) => Box::new(Seq::new(Box::new(goggles::seq!(next(), next(), next())), Box::new(Seq::new(next(), next())))),
                    _ => Box::new(SeqList({ v.reverse(); v })),
                }
            }
        }
    }

    /// What is needed, or none where there is a conflict.
    fn needs(&self) -> Option<Needs> {
        let mut all = Needs::default();
        match self {
            Plan::Leaf(n) => {
                let k = *n as usize & 63;
                if k >= SOUND {
                    return None;
                }
                for (comp, k, write) in KINDS[k].needs {
                    if *write { &mut all.writes } else { &mut all.reads }.insert(id(*comp, *k));
                }
                if wants_entities(k) {
                    all.reads.insert(WorldResourceId::Entities);
                }
            }
            Plan::Par(_, l) => {
                let mut clash = false;
                for t in l {
                    match t.needs() {
                        None => clash = true,
                        Some(n) => {
                            clash |= all.conflicts(&n);
                            all.add(&n);
                        }
                    }
                }
                if clash {
                    return None;
                }
            }
            Plan::Seq(_, l) => {
                for t in l {
                    all.add(&t.needs()?);
                }
            }
        }
        Some(all)
    }

    fn leaves(&self) -> u64 {
        match self {
            Plan::Leaf(_) => 1,
            Plan::Par(_, l) | Plan::Seq(_, l) => l.iter().map(|t| t.leaves()).sum(),
        }
    }
}

/// How the schedule avoids conflicts: not at all, mostly, or by taking out of what is still free.
fn plan(rng: &mut Rng, free: &BTreeSet<usize>, depth: u32, odd: u64) -> Plan {
    if depth == 0 || rng.chance(1, 6) {
        let v: Vec<usize> = free.iter().copied().collect();
        let k = if v.is_empty() || rng.chance(odd, 100) {
            if rng.chance(1, 10) { rng.idx(KINDS.len()) } else { rng.idx(SOUND) }
        } else {
            *rng.pick(&v)
        };
        return Plan::Leaf((rng.u64() >> 4 << 6) | k as u64);
    }
    let n = if rng.chance(1, 8) { rng.below(8) } else { rng.range(2, 5) } as usize;
    let how = rng.below(3) as u8;
    if rng.bool() {
        Plan::Seq(how, (0..n).map(|_| plan(rng, free, depth - 1, odd)).collect())
    } else {
        // Each branch may write some, read others, and all read what is left.
        let writer: Vec<usize> = (0..K + RK + 2).map(|_| rng.idx(n + 1)).collect();
        let mine = |at: usize| -> BTreeSet<usize> {
            free.iter()
                .copied()
                .filter(|k| {
                    KINDS[*k].needs.iter().all(|(comp, r, write)| {
                        let w = writer[if *comp { *r } else { K + r }];
                        if *write { w == at } else { w == at || w == n }
                    })
                })
                .collect()
        };
        let parts: Vec<_> = (0..n).map(mine).collect();
        Plan::Par(how, parts.iter().map(|f| plan(rng, f, depth - 1, odd)).collect())
    }
}

/// Only declares.
struct Declares(fn() -> Result<WorldResources, ResourceConflict>);

impl<'a> System<&'a World> for Declares {
    type Resources = WorldResources;
    type Pool = SeqPool;
    type Error = Failed;
    fn check_resources(&self) -> Result<WorldResources, ResourceConflict> {
        (self.0)()
    }
    fn run(&mut self, _: &SeqPool, _: &'a World) -> Result<(), Failed> {
        Ok(())
    }
}

/// Types that only their blocks tell apart: even their full names are the same.
macro_rules! twin {
    ($storage:ident, $field:ty) => {{
        #[allow(dead_code)]
        struct Twin($field);
        impl Component for Twin {
            type Storage = goggles::$storage<Self>;
        }
        [
            <ReadComponent<Twin> as FetchResources<World>>::check_resources as fn() -> _,
            <WriteComponent<Twin> as FetchResources<World>>::check_resources,
            <ReadResource<Twin> as FetchResources<World>>::check_resources,
            <WriteResource<Twin> as FetchResources<World>>::check_resources,
        ]
    }};
}

/// Parallel lists of systems for types of the same name.
fn twins(c: &mut Case) -> Res {
    let all: [[fn() -> Result<WorldResources, ResourceConflict>; 4]; 4] =
        [twin!(VecStorage, u64), twin!(VecStorage, u64), twin!(HashMapStorage, String), twin!(DenseVecStorage, ())];
    // (type, component or resource) to written.
    let mut taken: BTreeMap<(usize, usize), bool> = BTreeMap::new();
    let mut clash = false;
    let mut list = Vec::new();
    for _ in 0..c.rng.range(2, 6) {
        let (t, k, w) = (c.rng.idx(4), c.rng.idx(2), c.rng.bool());
        list.push(Declares(all[t][2 * k + w as usize]));
        match taken.insert((t, k), w) {
            Some(v) => clash |= v || w,
            None => {}
        }
    }
    let n = list.len();
    let par: Box<dyn for<'a> System<&'a World, Resources = WorldResources, Pool = SeqPool, Error = Failed> + Send> = if c.rng.bool() {
        Box::new(ParList(list))
    } else {
        let last = list.pop().unwrap();
        Box::new(Par::new(SeqList(vec![last]), ParList(list)))
    };
    ensure_eq!(par.check_resources().is_err(), clash, "whether {n} systems for types of the same name conflict");
    c.count("schedules over types of the same name", 1);
    Ok(())
}

fn schedule(c: &mut Case) -> Res {
    if c.rng.chance(1, 4) {
        twins(c)?;
    }
    let mut w = World::new();
    for k in 0..K {
        for_comp!(k, T => { w.insert_component::<T>(); });
    }
    w.insert_resource(Res_::<0>::default());
    w.insert_resource(Res_::<1>::default());
    w.insert_resource(Res_::<2>::default());
    w.insert_resource(Res_::<3>::default());
    w.insert_resource(Nothing);
    w.insert_resource(C::<0>::new(value(1)));
    let odd = *c.rng.pick(&[0, 1, 3, 10, 30]);
    let depth = c.rng.range(1, 4) as u32;
    let p = {
        let mut rng = c.rng.fork();
        let all: BTreeSet<usize> = (0..SOUND).collect();
        plan(&mut rng, &all, depth, odd)
    };
    c.mix_str(&format!("{p:?}"));
    c.op("schedule", p.leaves(), odd);
    let want = p.needs();
    let held = Arc::new(Held(Default::default(), Default::default()));
    fn verdict<P: Pool>(p: &Plan, s: &DynS<P>, want: &Option<Needs>) -> Res {
        for _ in 0..2 {
            match (s.check_resources(), want) {
                (Err(_), None) => {}
                (Ok(r), Some(n)) => {
                    let got = Needs { reads: r.reads().copied().collect(), writes: r.writes().copied().collect() };
                    ensure!(got == *n, "resources reported by {p:?}: {got:?}, expected {n:?}");
                }
                (Ok(_), None) => return Err(format!("a conflicting schedule was accepted: {p:?}")),
                (Err(e), Some(_)) => return Err(format!("a schedule without conflict was refused: {e}: {p:?}")),
            }
        }
        Ok(())
    }
    let kind = c.rng.below(6);
    let at = c.rng.idx(pools().len());
    let salt = c.rng.u64();
    macro_rules! go {
        ($p:ty, $s:ident => $run:expr) => {{
            let mut $s: DynS<$p> = p.make(&held);
            verdict(&p, &$s, &want)?;
            if want.is_some() {
                for _ in 0..2 {
                    catch(|| drop($run)).map_err(|e| format!("a system of an accepted schedule panicked: {}: {p:?}", e.msg))?;
                }
                ensure_eq!(held.1.load(Ordering::SeqCst), 2 * p.leaves(), "systems run");
            }
        }};
    }
    match kind {
        0 => go!(SeqPool, s => s.run(&SeqPool, &w)),
        1..=4 => go!(RayonPool, s => pools()[at].install(|| s.run(&RayonPool, &w))),
        _ => go!(Threads, s => s.run(&Threads::new(salt), &w)),
    }
    // Nothing is held any more.
    for k in 0..K {
        for_comp!(k, T => drop(w.write_component::<T>()));
    }
    match want {
        Some(_) => c.count("accepted schedules over a world, run", 1),
        None => c.count("conflicting schedules over a world", 1),
    }
    c.count("world systems run", held.1.load(Ordering::SeqCst));
    c.nontrivial = p.leaves() > 1;
    Ok(())
}

pub fn run(r: &'static Runner, opts: &Opts) {
    let ledger = Ledger::new();
    let _ = SHARED.set(ledger.table);
    r.run(
        "world-schedules",
        "random schedules (pairs, chains, lists, nested; up to about 60 systems) of 37 request types over a world with 6 components and 6 resources, some in conflict; the verdict and the reported union compared with a model of the types requested, and accepted schedules run on every kind of pool with each system holding its request; non-trivial: more than one system",
        opts.n(6000, 100_000),
        opts.threads,
        schedule,
    );
    std::mem::forget(ledger);
}
