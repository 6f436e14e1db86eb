// C27: checked systems over a world, in parallel and one after another.
//
// Each system has a script.  What a script computes does not depend on the order in which entities are
// visited, nor on the handles that concurrently created entities get.
use rayon::prelude::*;
use goggles::{
    par, parallelize,
    system::{ParList, SeqList},
    FetchResources, Par, ParJoinExt, Pool, RayonPool, ReadResource, ResourceConflict, Resources, Seq, SeqPool, System,
    SystemError, WorldResources, WriteResource,
};

#[derive(Default)]
pub struct Res_<const N: usize>(u64);
pub const RK: usize = 4;

macro_rules! for_res {
    ($k:expr, $t:ident => $e:expr) => {
        match $k {
            0 => { type $t = Res_<0>; $e }
            1 => { type $t = Res_<1>; $e }
            2 => { type $t = Res_<2>; $e }
            3 => { type $t = Res_<3>; $e }
            _ => unreachable!(),
        }
    };
}

fn mix(a: u64, b: u64) -> u64 {
    (a.rotate_left(9) ^ b).wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(0x51_7C_C1_B7_27)
}

#[derive(Clone, Debug)]
enum Act {
    /// Create entities and give them these components.
    Create { n: u32, comps: Vec<usize>, tag: u64 },
    /// Ask for the deletion of entities.
    Delete(Vec<Entity>),
    /// Change every value of the first, from the second if given (read), on entities.
    Edit { w: usize, r: Option<usize>, par: bool, x: u64 },
    /// Sum up component into resource.
    Sum { c: usize, to: usize, par: bool },
    /// Set, on these entities.
    Put { w: usize, on: Vec<Entity>, x: u64 },
    Take { w: usize, from: Vec<Entity> },
    /// Combine resources.
    Blend { from: usize, to: usize, x: u64 },
    /// Ask for the deletion of everything with an odd sum in a component.
    Cull { c: usize, m: u64 },
    /// Count the live entities of old that have no such component.
    Lacking { c: usize, to: usize, among: Vec<Entity> },
    /// Mark what is modified.
    Mark { c: usize, on: Vec<Entity> },
    /// Try handles that are dead.
    Stale { w: usize, on: Vec<Entity> },
}

#[derive(Clone, Debug, Default)]
struct Uses {
    rc: BTreeSet<usize>,
    wc: BTreeSet<usize>,
    rr: BTreeSet<usize>,
    wr: BTreeSet<usize>,
}

impl Uses {
    fn declared(&self) -> WorldResources {
        let mut r = <Entities as FetchResources<World>>::check_resources().unwrap();
        let mut add = |x: Result<WorldResources, ResourceConflict>| r.union(&x.unwrap());
        for k in &self.rc {
            for_comp!(*k, T => add(<ReadComponent<T> as FetchResources<World>>::check_resources()));
        }
        for k in &self.wc {
            for_comp!(*k, T => add(<WriteComponent<T> as FetchResources<World>>::check_resources()));
        }
        for k in &self.rr {
            for_res!(*k, T => add(<ReadResource<T> as FetchResources<World>>::check_resources()));
        }
        for k in &self.wr {
            for_res!(*k, T => add(<WriteResource<T> as FetchResources<World>>::check_resources()));
        }
        r
    }

    fn split(&self, rng: &mut Rng, n: usize) -> Vec<Uses> {
        let mut v = vec![Uses { rc: self.rc.clone(), rr: self.rr.clone(), ..Uses::default() }; n];
        let mut deal = |all: &BTreeSet<usize>, read: fn(&mut Uses) -> &mut BTreeSet<usize>, write: fn(&mut Uses) -> &mut BTreeSet<usize>| {
            for k in all {
                if rng.chance(1, 4) {
                    for u in &mut v {
                        read(u).insert(*k);
                    }
                } else {
                    let at = rng.idx(n);
                    write(&mut v[at]).insert(*k);
                }
            }
        };
        deal(&self.wc, |u| &mut u.rc, |u| &mut u.wc);
        deal(&self.wr, |u| &mut u.rr, |u| &mut u.wr);
        v
    }
}

#[derive(Clone, Debug)]
struct Script {
    uses: Uses,
    acts: Vec<Act>,
    delay: u64,
    /// Whether it reports failure.
    fails: bool,
}

#[derive(Debug)]
pub struct Failed(u64);
impl SystemError for Failed {
    fn combine(self, o: Failed) -> Failed {
        Failed(self.0 + o.0)
    }
}

/// Everything a script may use, borrowed for as long as the system runs.
fn run_script(s: &Script, w: &World) -> Result<(), Failed> {
    struct All<'a>(Vec<Box<dyn Any_ + 'a>>);
    trait Any_ {}
    impl<T> Any_ for T {}
    // The system holds everything it declared, and works through what it holds; as the types of these
    // differ, actions are done with the guards taken out of a table by type.
    let mut held = All(Vec::new());
    let ents = w.entities();
    for d in 0..s.delay % 3 {
        if d == 0 {
            std::thread::yield_now();
        } else {
            (0..s.delay % 2000).for_each(|_| std::hint::spin_loop());
        }
    }
    for a in &s.acts {
        match a {
            Act::Create { n, comps, tag } => {
                for i in 0..*n {
                    let e = ents.create();
                    assert!(ents.is_alive(e), "a created entity is not alive");
                    for k in comps {
                        for_comp!(*k, T => {
                            let mut c = w.write_component::<T>();
                            let old = c.insert(e, T::new(value(mix(*tag, i as u64)))).expect("insert on a created entity");
                            assert!(old.is_none(), "a created entity has a component from the start");
                        });
                    }
                }
            }
            Act::Delete(v) => {
                for e in v {
                    // (it stays alive until the merge)
                    assert_eq!(ents.delete(*e).is_ok(), ents.is_alive(*e));
                }
            }
            Act::Edit { w: k, r, par, x } => for_comp!(*k, T => {
                let mut c = w.write_component::<T>();
                match r {
                    Some(r) => for_comp!(*r, S => {
                        let d = w.read_component::<S>();
                        let f = |(a, b): (&mut T, Option<&S>)| {
                            let v = a.tok().val;
                            a.tok_mut().val = mix(v, b.map(|b| b.tok().val).unwrap_or(*x));
                        };
                        if *par {
                            (&mut c, (&d).maybe()).par_join().for_each(f);
                        } else {
                            (&mut c, (&d).maybe()).join().for_each(f);
                        }
                    }),
                    None => {
                        let f = |(_, a): (Entity, &mut T)| {
                            let v = a.tok().val;
                            a.tok_mut().val = mix(v, *x);
                        };
                        if *par {
                            (&ents, &mut c).par_join().for_each(f);
                        } else {
                            (&ents, &mut c).join().for_each(f);
                        }
                    }
                }
            }),
            Act::Sum { c, to, par } => {
                let sum = for_comp!(*c, T => {
                    let c = w.read_component::<T>();
                    if *par {
                        (&c).par_join().map(|c| mix(c.tok().val, 1)).reduce(|| 0, u64::wrapping_add)
                    } else {
                        (&c).join().map(|c| mix(c.tok().val, 1)).fold(0, u64::wrapping_add)
                    }
                });
                for_res!(*to, R => { let mut r = w.write_resource::<R>(); r.0 = mix(r.0, sum); });
            }
            Act::Put { w: k, on, x } => for_comp!(*k, T => {
                let mut c = w.write_component::<T>();
                for (n, e) in on.iter().enumerate() {
                    let live = ents.is_alive(*e);
                    assert_eq!(c.insert(*e, T::new(value(mix(*x, n as u64)))).is_ok(), live);
                }
            }),
            Act::Take { w: k, from } => for_comp!(*k, T => {
                let mut c = w.write_component::<T>();
                for e in from {
                    let live = ents.is_alive(*e);
                    assert_eq!(c.remove(*e).is_ok(), live);
                }
            }),
            Act::Blend { from, to, x } => {
                let v = if from == to { *x } else { for_res!(*from, R => w.read_resource::<R>().0) };
                for_res!(*to, R => { let mut r = w.write_resource::<R>(); r.0 = mix(r.0, v ^ x); });
            }
            Act::Cull { c, m } => for_comp!(*c, T => {
                let c = w.read_component::<T>();
                for (e, v) in (&ents, &c).join() {
                    if mix(v.tok().val, *m) % 16 == 0 {
                        ents.delete(e).expect("deleting an entity that is alive");
                    }
                }
            }),
            Act::Lacking { c, to, among } => {
                let n = for_comp!(*c, T => {
                    let c = w.read_component::<T>();
                    among.iter().filter(|e| ents.is_alive(**e) && !c.contains(**e)).count() as u64
                });
                for_res!(*to, R => { let mut r = w.write_resource::<R>(); r.0 = mix(r.0, n); });
            }
            Act::Mark { c, on } => {
                if *c >= TRACKED {
                    for_tracked!(*c, T => {
                        let c = w.read_component::<T>();
                        for e in on {
                            assert_eq!(c.mark_modified(*e).is_ok(), ents.is_alive(*e));
                        }
                    })
                }
            }
            Act::Stale { w: k, on } => for_comp!(*k, T => {
                let mut c = w.write_component::<T>();
                for e in on {
                    if !ents.is_alive(*e) {
                        assert!(c.get(*e).is_none() && c.get_mut(*e).is_none() && c.remove(*e).is_err() && c.insert(*e, T::new(value(7))).is_err());
                    }
                }
            }),
        }
    }
    // Now hold everything at once for a moment: whoever should not be there at the same time is refused.
    for k in &s.uses.rc {
        for_comp!(*k, T => held.0.push(Box::new(w.read_component::<T>())));
    }
    for k in &s.uses.wc {
        for_comp!(*k, T => held.0.push(Box::new(w.write_component::<T>())));
    }
    for k in &s.uses.rr {
        for_res!(*k, T => held.0.push(Box::new(w.read_resource::<T>())));
    }
    for k in &s.uses.wr {
        for_res!(*k, T => held.0.push(Box::new(w.write_resource::<T>())));
    }
    if s.delay % 2 == 0 {
        std::thread::yield_now();
    }
    if s.fails { Err(Failed(1)) } else { Ok(()) }
}

pub static SHARED: OnceLock<&'static gmon::ledger::Table> = OnceLock::new();

/// A recorded value; threads of any pool make them, so they share one table.
pub fn value(v: u64) -> Tok {
    let mut t = Tok::in_table(SHARED.get().expect("no table"));
    t.val = v;
    t
}

struct Sys<P>(Script, std::marker::PhantomData<fn(&P)>);

impl<'a, P: Pool> System<&'a World> for Sys<P> {
    type Resources = WorldResources;
    type Pool = P;
    type Error = Failed;
    fn check_resources(&self) -> Result<WorldResources, ResourceConflict> {
        Ok(self.0.uses.declared())
    }
    fn run(&mut self, _: &P, w: &'a World) -> Result<(), Failed> {
        run_script(&self.0, w)
    }
}

type DynW<P> = Box<dyn for<'a> System<&'a World, Resources = WorldResources, Pool = P, Error = Failed> + Send>;

#[derive(Clone, Debug)]
enum Tree {
    Leaf(usize),
    Par(Vec<Tree>),
    Seq(Vec<Tree>),
    /// Made by `parallelize`.
    Auto(Vec<usize>),
}

impl Tree {
    fn build<P: Pool + Sync + Send + 'static>(&self, s: &[Script]) -> DynW<P> {
        let leaf = |n: usize| Sys::<P>(s[n].clone(), std::marker::PhantomData);
        match self {
            Tree::Leaf(n) => Box::new(leaf(*n)),
            Tree::Par(l) => {
                let mut v: Vec<DynW<P>> = l.iter().map(|t| t.build(s)).collect();
                match v.len() {
                    2 => {
                        let b = v.pop().unwrap();
                        Box::new(Par::new(v.pop().unwrap(), b))
                    }
                    3 => {
                        let (c, b) = (v.pop().unwrap(), v.pop().unwrap());
                        Box::new(par!(v.pop().unwrap(), b, c))
                    }
                    _ => Box::new(ParList(v)),
                }
            }
            Tree::Seq(l) => {
                let mut v: Vec<DynW<P>> = l.iter().map(|t| t.build(s)).collect();
                match v.len() {
                    2 => {
                        let b = v.pop().unwrap();
                        Box::new(Seq::new(v.pop().unwrap(), b))
                    }
                    _ => Box::new(SeqList(v)),
                }
            }
            Tree::Auto(v) => Box::new(parallelize::<&'static World, _>(v.iter().map(|n| leaf(*n)))),
        }
    }

    /// One after another.
    fn sequential(&self, s: &[Script], w: &World) -> Result<(), Failed> {
        match self {
            Tree::Leaf(n) => run_script(&s[*n], w),
            Tree::Par(l) => {
                let mut failed = 0;
                for t in l {
                    if let Err(e) = t.sequential(s, w) {
                        failed += e.0;
                    }
                }
                if failed == 0 { Ok(()) } else { Err(Failed(failed)) }
            }
            Tree::Seq(l) => l.iter().try_for_each(|t| t.sequential(s, w)),
            Tree::Auto(l) => l.iter().try_for_each(|n| run_script(&s[*n], w)),
        }
    }
}

fn script(rng: &mut Rng, u: &Uses, old: &[Entity], fails: bool) -> Script {
    // Use some of what may be used.
    let mut uses = Uses::default();
    let some = |rng: &mut Rng, all: &BTreeSet<usize>| -> BTreeSet<usize> { all.iter().copied().filter(|_| rng.chance(2, 3)).collect() };
    uses.wc = some(rng, &u.wc);
    uses.wr = some(rng, &u.wr);
    uses.rc = some(rng, &u.rc).difference(&uses.wc).copied().collect();
    uses.rr = some(rng, &u.rr).difference(&uses.wr).copied().collect();
    let list = |rng: &mut Rng| -> Vec<Entity> {
        if old.is_empty() {
            return Vec::new();
        }
        (0..if rng.chance(1, 20) { rng.below(800) } else { rng.below(6) }).map(|_| *rng.pick(old)).collect()
    };
    let one = |rng: &mut Rng, s: &BTreeSet<usize>| -> Option<usize> {
        if s.is_empty() { None } else { s.iter().nth(rng.idx(s.len())).copied() }
    };
    let mut acts = Vec::new();
    for _ in 0..rng.range(1, 6) {
        let (w, r) = (one(rng, &uses.wc), one(rng, &uses.rc));
        let (to, from) = (one(rng, &uses.wr), one(rng, &uses.rr));
        let par = rng.bool();
        let x = rng.u64();
        let any = if rng.bool() { w.or(r) } else { r.or(w) };
        acts.push(match (rng.below(13), w, r, to, any) {
            (0..=2, ..) => Act::Create {
                n: rng.below(5) as u32 + match rng.below(200) { 0..=9 => 40, 10 => 1000, _ => 0 },
                comps: uses.wc.iter().copied().filter(|_| rng.bool()).collect(),
                tag: x,
            },
            (3, ..) => Act::Delete(list(rng)),
            (4..=5, Some(w), ..) => Act::Edit { w, r, par, x },
            (6, _, Some(c), Some(to), _) => Act::Sum { c, to, par },
            (7, Some(w), ..) => Act::Put { w, on: list(rng), x },
            (8, Some(w), ..) => Act::Take { w, from: list(rng) },
            (9, _, Some(c), ..) => Act::Cull { c, m: x },
            (10, _, Some(c), Some(to), _) => Act::Lacking { c, to, among: list(rng) },
            (11, _, Some(c), ..) => Act::Mark { c, on: list(rng) },
            (12, Some(w), ..) => Act::Stale { w, on: list(rng) },
            (_, _, _, Some(to), _) => Act::Blend { from: from.unwrap_or(to), to, x },
            _ => Act::Delete(list(rng)),
        });
    }
    Script { uses, acts, delay: if rng.bool() { rng.u64() >> 8 } else { 1 }, fails }
}

fn tree(rng: &mut Rng, u: &Uses, old: &[Entity], depth: u32, fails: u64, out: &mut Vec<Script>) -> Tree {
    if depth == 0 || out.len() > 24 || rng.chance(1, 5) {
        let f = rng.chance(fails, 100);
        out.push(script(rng, u, old, f));
        return Tree::Leaf(out.len() - 1);
    }
    let n = rng.range(2, 5) as usize;
    match rng.below(5) {
        0..=1 => {
            let parts = u.split(rng, n);
            Tree::Par(parts.iter().map(|u| tree(rng, u, old, depth - 1, fails, out)).collect())
        }
        2..=3 => Tree::Seq((0..n).map(|_| tree(rng, u, old, depth - 1, fails, out)).collect()),
        _ => {
            let n = rng.range(1, 12) as usize;
            let parts = u.split(rng, 3);
            let mut v = Vec::new();
            for _ in 0..n {
                let u = rng.pick(&parts).clone();
                out.push(script(rng, &u, old, false));
                v.push(out.len() - 1);
            }
            Tree::Auto(v)
        }
    }
}

/// The same world every time: the handles and everything in it depend only on `rng`.
fn setup(rng: &mut Rng) -> (World, Vec<Entity>) {
    let mut w = World::new();
    for k in 0..K {
        for_comp!(k, T => { w.insert_component::<T>(); });
        if k >= TRACKED {
            for_tracked!(k, T => w.get_component_mut::<T>().set_track_modified(true));
        }
    }
    for k in 0..RK {
        for_res!(k, T => { w.insert_resource::<T>(Res_(k as u64)); });
    }
    let n = if rng.chance(1, 80) { rng.range(4000, 20_000) } else { *rng.pick(&[0, 3, 10, 70, 70, 300, 1000]) };
    let mut old = Vec::new();
    for _ in 0..n {
        let e = w.create_entity();
        old.push(e);
        for k in 0..K {
            if rng.bool() {
                for_comp!(k, T => { w.get_component_mut::<T>().insert(e, T::new(value(rng.below(1 << 40)))).unwrap(); });
            }
        }
    }
    // Free indexes, for concurrent creations to reuse.
    for e in &old {
        if rng.chance(1, 4) {
            w.delete_entity(*e).unwrap();
        }
    }
    (w, old)
}

/// Everything that may be compared: old entities by their handle, others by what they carry.
#[derive(PartialEq, Debug)]
struct Seen {
    res: Vec<u64>,
    old: BTreeMap<usize, Vec<Option<u64>>>,
    new: BTreeMap<Vec<Option<u64>>, u64>,
    modified_old: Vec<BTreeSet<usize>>,
}

fn look(w: &mut World, old: &[Entity]) -> Res<Seen> {
    let res = (0..RK).map(|k| for_res!(k, T => w.get_resource_mut::<T>().0)).collect();
    let live: Vec<Entity> = {
        let e = w.entities();
        (&e).join().collect()
    };
    let index: BTreeMap<Entity, usize> = old.iter().enumerate().map(|(n, e)| (*e, n)).collect();
    let mut s = Seen { res, old: BTreeMap::new(), new: BTreeMap::new(), modified_old: vec![BTreeSet::new(); K] };
    let mut found = vec![0; K];
    for e in &live {
        let row: Vec<Option<u64>> = (0..K)
            .map(|k| for_comp!(k, T => w.read_component::<T>().get(*e).map(|c| c.tok().val)))
            .collect();
        for k in 0..K {
            found[k] += row[k].is_some() as usize;
        }
        match index.get(e) {
            Some(n) => drop(s.old.insert(*n, row)),
            None => *s.new.entry(row).or_default() += 1,
        }
    }
    for k in 0..K {
        let n = for_comp!(k, T => { let c = w.read_component::<T>(); (&c).join().count() });
        ensure_eq!(n, found[k], "number of components {k}, and of live entities that have one");
        if k >= TRACKED {
            for_tracked!(k, T => {
                let c = w.read_component::<T>();
                let m = read_modified::<T>(c.storage());
                s.modified_old[k] = old.iter().enumerate().filter(|(_, e)| m.contains(&e.index()) && w.entities().is_alive(**e)).map(|(n, _)| n).collect();
            });
        }
    }
    Ok(s)
}

pub struct Threads(u64, std::sync::atomic::AtomicU64);

impl Threads {
    pub fn new(salt: u64) -> Self {
        Threads(salt, Default::default())
    }
}

impl Pool for Threads {
    fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        let n = self.1.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let up = |r: std::thread::Result<_>| r.unwrap_or_else(|p| std::panic::resume_unwind(p));
        let upb = |r: std::thread::Result<_>| r.unwrap_or_else(|p| std::panic::resume_unwind(p));
        match (mix(self.0, n) >> 9) % 3 {
            0 => {
                let rb = b();
                (a(), rb)
            }
            1 => std::thread::scope(|s| {
                let (a, b) = (s.spawn(a), s.spawn(b));
                let (a, b) = (a.join(), b.join());
                (up(a), upb(b))
            }),
            // (Not rayon: its workers would wait for threads that wait for workers.)
            _ => std::thread::scope(|s| {
                let b = s.spawn(b);
                let a = a();
                (a, upb(b.join()))
            }),
        }
    }
}

pub fn pools() -> &'static Vec<rayon::ThreadPool> {
    static POOLS: OnceLock<Vec<rayon::ThreadPool>> = OnceLock::new();
    POOLS.get_or_init(|| {
        [1usize, 2, 3, 8, 8, 4]
            .iter()
            .map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap())
            .collect()
    })
}

fn compare_runs(c: &mut Case) -> Res {
    let mut start = c.rng.fork();
    let (mut a, old) = setup(&mut start.clone());
    let (mut b, old_b) = setup(&mut start);
    ensure_eq!(old, old_b, "handles of entities created one by one in two worlds");
    let u = Uses {
        wc: (0..K).filter(|_| c.rng.chance(4, 5)).collect(),
        wr: (0..RK).filter(|_| c.rng.chance(4, 5)).collect(),
        rc: BTreeSet::new(),
        rr: BTreeSet::new(),
    };
    let mut scripts = Vec::new();
    let depth = c.rng.range(1, 4) as u32;
    let fails = *c.rng.pick(&[0, 0, 0, 10]);
    let t = {
        let mut rng = c.rng.fork();
        tree(&mut rng, &u, &old, depth, fails, &mut scripts)
    };
    c.op("schedule", scripts.len() as u64, old.len() as u64);
    c.mix_str(&format!("{t:?} {scripts:?}"));
    let kind = c.rng.below(6);
    let n = c.rng.idx(pools().len());
    let salt = c.rng.u64();
    enum Made {
        Seq(DynW<SeqPool>),
        Rayon(DynW<RayonPool>),
        Threads(DynW<Threads>),
    }
    let mut made = match kind {
        0 => Made::Seq(t.build(&scripts)),
        1..=3 => Made::Rayon(t.build(&scripts)),
        _ => Made::Threads(t.build(&scripts)),
    };
    let accepted = match &made {
        Made::Seq(s) => s.check_resources().is_ok(),
        Made::Rayon(s) => s.check_resources().is_ok(),
        Made::Threads(s) => s.check_resources().is_ok(),
    };
    ensure!(accepted, "a schedule without conflicts was refused: {t:?}");
    let mut created = 0;
    for round in 0..c.rng.range(1, 3) {
        let want = t.sequential(&scripts, &a);
        let before = (&b.entities()).join().count();
        let got = match &mut made {
            Made::Seq(s) => catch(|| s.run(&SeqPool, &b)),
            Made::Rayon(s) => catch(|| pools()[n].install(|| s.run(&RayonPool, &b))),
            Made::Threads(s) => catch(|| s.run(&Threads(salt, Default::default()), &b)),
        };
        let got = got.map_err(|p| format!("a system of an accepted schedule panicked: {}", p.msg))?;
        ensure_eq!(
            got.map_err(|e| e.0),
            want.map_err(|e| e.0),
            "round {round}: result of the run (number of failures), compared to running one after another"
        );
        created += (&b.entities()).join().count() - before;
        a.merge();
        b.merge();
        let (sa, sb) = (look(&mut a, &old)?, look(&mut b, &old)?);
        ensure!(sa.res == sb.res, "round {round}: resources {:?}, sequentially {:?}, in {t:?}", sb.res, sa.res);
        ensure!(
            sa.old == sb.old,
            "round {round}: entities that existed before differ: {:?}",
            sa.old.iter().zip(&sb.old).find(|(x, y)| x != y)
        );
        ensure!(
            sa.new == sb.new,
            "round {round}: {} kinds of created entities, sequentially {}; differing: {:?}",
            sb.new.len(),
            sa.new.len(),
            sa.new.iter().find(|(k, v)| sb.new.get(*k) != Some(*v))
        );
        ensure!(sa.modified_old == sb.modified_old, "round {round}: modified indexes of older entities differ");
        c.count("worlds compared", 1);
        c.count("old entities compared", sa.old.len() as u64);
        c.count("created entities compared", sa.new.values().sum());
        if c.rng.chance(1, 3) {
            for k in TRACKED..K {
                for_tracked!(k, T => { a.get_component_mut::<T>().clear_modified(); b.get_component_mut::<T>().clear_modified(); });
            }
        }
    }
    c.count("systems", scripts.len() as u64);
    c.count("entities created by systems", created as u64);
    c.nontrivial = scripts.len() > 1;
    Ok(())
}

pub fn run(r: &'static Runner, opts: &Opts) {
    let ledger = Ledger::new();
    let _ = SHARED.set(ledger.table);
    r.run(
        "parallel-worlds",
        "random accepted schedules (nested pairs, lists, chains and automatic ones, up to about 30 systems) of scripts that create, delete, edit, sum and blend over 6 component types and 4 resources, on the sequential pool, rayon pools of 1 to 8 threads and new threads, compared after each merge with the same scripts run one after another on an identical world; non-trivial: more than one system",
        opts.n(3000, 60_000),
        opts.threads,
        compare_runs,
    );
    if let Err(e) = ledger.expect_live(&BTreeSet::new(), "after all worlds were dropped") {
        r.add_violation(gmon::report::Violation { workload: "parallel-worlds".into(), case: 0, message: e, history: String::new() });
    }
    std::mem::forget(ledger);
}
