//! C19–C21: system monitors (and C09 for system bodies).
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    convert::Infallible,
    marker::PhantomData,
    panic::{catch_unwind, resume_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Mutex, OnceLock,
    },
};

use gmon::{catch, ensure, ensure_eq, ledger::Table, Case, Ledger, Opts, Res, Rng, Runner, Tok};
use goggles::{
    par, parallelize,
    resource_set::ResourceId,
    rayon, seq,
    system::{ParList, SeqList},
    Par, Pool, RayonPool, Read, ResourceConflict, ResourceSet, RwResources, Seq, SeqPool, System, SystemError, Write,
};

// ---------------------------------------------------------------------------------------------
// Resources

#[derive(Debug)]
struct R<const N: usize>(u64);
const K: usize = 16;

macro_rules! for_type {
    ($k:expr, $t:ident => $e:expr) => {
        for_type!(@ $k, $t, $e, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15)
    };
    (@ $k:expr, $t:ident, $e:expr, $($n:literal)*) => {
        match $k {
            $($n => { type $t = R<$n>; $e })*
            _ => unreachable!(),
        }
    };
}

fn rid(k: usize) -> ResourceId {
    for_type!(k, T => ResourceId::of::<T>())
}

fn mix(a: u64, b: u64) -> u64 {
    (a.rotate_left(7) ^ b).wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(0x1234_5678_9ABC_DEF1)
}

/// What a system says it uses.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
struct Rw {
    reads: BTreeSet<usize>,
    writes: BTreeSet<usize>,
}

impl Rw {
    fn conflicts(&self, o: &Rw) -> bool {
        self.writes.iter().any(|w| o.writes.contains(w) || o.reads.contains(w))
            || o.writes.iter().any(|w| self.reads.contains(w))
    }
    fn union(&mut self, o: &Rw) {
        self.reads.extend(o.reads.iter().copied());
        self.writes.extend(o.writes.iter().copied());
        let w = self.writes.clone();
        self.reads.retain(|r| !w.contains(r));
    }
    fn real(&self) -> RwResources<ResourceId> {
        RwResources::from_iters(self.reads.iter().map(|k| rid(*k)), self.writes.iter().map(|k| rid(*k)))
    }
    fn is(&self, r: &RwResources<ResourceId>) -> bool {
        let reads: BTreeSet<_> = r.reads().copied().collect();
        let writes: BTreeSet<_> = r.writes().copied().collect();
        reads == self.reads.iter().map(|k| rid(*k)).collect() && writes == self.writes.iter().map(|k| rid(*k)).collect()
    }
    /// The effect of a system: what it writes depends on everything it sees.
    fn apply(&self, id: usize, state: &mut [u64; K]) {
        let mut h = id as u64 + 1;
        for r in &self.reads {
            h = mix(h, state[*r]);
        }
        for w in &self.writes {
            state[*w] = mix(state[*w], h);
        }
    }
}

trait Any_ {}
impl<T> Any_ for T {}

/// Take the declared borrows from the set (panics if refused), and have the effect of the system.
fn with_borrows(set: &ResourceSet, rw: &Rw, id: usize, wait: impl FnOnce()) {
    let mut guards: Vec<Box<dyn Any_ + '_>> = Vec::new();
    let mut h = id as u64 + 1;
    for r in &rw.reads {
        for_type!(*r, T => {
            let g = set.fetch::<Read<T>>();
            h = mix(h, g.0);
            guards.push(Box::new(g));
        })
    }
    for w in &rw.writes {
        for_type!(*w, T => {
            let mut g = set.fetch::<Write<T>>();
            g.0 = mix(g.0, h);
            guards.push(Box::new(g));
        })
    }
    wait();
}

fn state_of(set: &ResourceSet) -> [u64; K] {
    std::array::from_fn(|k| for_type!(k, T => set.borrow::<T>().0))
}

// ---------------------------------------------------------------------------------------------
// Pools

trait PoolX: Pool + Sync + Send + 'static {
    fn tag(&self) -> u64 {
        0
    }
    /// Whether it records which runs may overlap.
    const SPY: bool = false;
}

impl PoolX for SeqPool {}
impl PoolX for RayonPool {}

thread_local! {
    /// The forks this thread is within: their number, and which branch.
    static PATH: RefCell<Vec<(u64, bool)>> = const { RefCell::new(Vec::new()) };
}

fn in_branch<T>(path: &[(u64, bool)], n: u64, branch: bool, f: impl FnOnce() -> T) -> T {
    let mut mine = path.to_vec();
    mine.push((n, branch));
    let before = PATH.with(|p| std::mem::replace(&mut *p.borrow_mut(), mine));
    let r = catch_unwind(AssertUnwindSafe(f));
    PATH.with(|p| *p.borrow_mut() = before);
    r.unwrap_or_else(|p| resume_unwind(p))
}

/// Runs may overlap if they are in different branches of the same fork.
fn may_overlap(a: &[(u64, bool)], b: &[(u64, bool)]) -> bool {
    a.iter().zip(b).find(|(x, y)| x != y).map(|(x, y)| x.0 == y.0).unwrap_or(false)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    InOrder,
    Reversed,
    ThreadA,
    ThreadB,
    Both,
    Rayon,
    Random,
}

struct SpyPool {
    how: How,
    tag: u64,
    next: AtomicU64,
    salt: u64,
}

static TAGS: AtomicU64 = AtomicU64::new(1);

impl SpyPool {
    fn new(how: How, salt: u64) -> SpyPool {
        SpyPool {
            how,
            tag: TAGS.fetch_add(1, Ordering::Relaxed),
            next: AtomicU64::new(1),
            salt,
        }
    }
}

impl PoolX for SpyPool {
    fn tag(&self) -> u64 {
        self.tag
    }
    const SPY: bool = true;
}

fn joined<T>(r: std::thread::Result<T>) -> T {
    r.unwrap_or_else(|p| resume_unwind(p))
}

impl Pool for SpyPool {
    fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        let n = self.next.fetch_add(1, Ordering::Relaxed);
        let path = PATH.with(|p| p.borrow().clone());
        let a = || in_branch(&path, n, false, a);
        let b = || in_branch(&path, n, true, b);
        let mut how = self.how;
        if how == How::Random {
            how = [How::InOrder, How::Reversed, How::ThreadA, How::ThreadB, How::Both, How::Rayon]
                [(mix(self.salt, n) >> 7) as usize % 6];
        }
        // A rayon worker must not wait for threads that wait for workers.
        if matches!(how, How::ThreadA | How::ThreadB | How::Both) && rayon::current_thread_index().is_some() {
            how = How::Rayon;
        }
        match how {
            How::InOrder => {
                let ra = a();
                (ra, b())
            }
            How::Reversed => {
                let rb = b();
                (a(), rb)
            }
            How::ThreadA => std::thread::scope(|s| {
                let t = s.spawn(a);
                let rb = catch_unwind(AssertUnwindSafe(b));
                let ra = joined(t.join());
                (ra, joined(rb))
            }),
            How::ThreadB => std::thread::scope(|s| {
                let t = s.spawn(b);
                let ra = catch_unwind(AssertUnwindSafe(a));
                let rb = t.join();
                (joined(ra), joined(rb))
            }),
            How::Both => std::thread::scope(|s| {
                let (ta, tb) = (s.spawn(a), s.spawn(b));
                let (ra, rb) = (ta.join(), tb.join());
                (joined(ra), joined(rb))
            }),
            How::Rayon | How::Random => rayon::join(a, b),
        }
    }
}

fn rayon_pools() -> &'static Vec<rayon::ThreadPool> {
    static POOLS: OnceLock<Vec<rayon::ThreadPool>> = OnceLock::new();
    POOLS.get_or_init(|| {
        [1usize, 2, 3, 8, 8, 4]
            .iter()
            .map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap())
            .collect()
    })
}

// ---------------------------------------------------------------------------------------------
// Systems

#[derive(Debug, Clone)]
struct Ev {
    leaf: usize,
    start: u64,
    end: u64,
    path: Vec<(u64, bool)>,
}

#[derive(Default)]
struct Plan {
    arg: u64,
    tag: u64,
    fail: BTreeSet<usize>,
    panic: BTreeSet<usize>,
    /// Whether the systems take the borrows they declare.
    borrow: bool,
    delay: u64,
}

struct Ctx {
    table: &'static Table,
    set: ResourceSet,
    clock: AtomicU64,
    events: Mutex<Vec<Ev>>,
    problems: Mutex<Vec<String>>,
    plan: Mutex<Arc<Plan>>,
}

impl Ctx {
    fn new(l: &Ledger) -> Arc<Ctx> {
        let mut set = ResourceSet::new();
        for k in 0..K {
            for_type!(k, T => { set.insert::<T>(R(k as u64)); });
        }
        Arc::new(Ctx {
            table: l.table,
            set,
            clock: AtomicU64::new(0),
            events: Mutex::new(Vec::new()),
            problems: Mutex::new(Vec::new()),
            plan: Mutex::new(Arc::new(Plan::default())),
        })
    }
    fn problem(&self, s: String) {
        self.problems.lock().unwrap().push(s);
    }
}

/// Errors: which system failed, each with a recorded value.
#[derive(Debug)]
struct Errs(Vec<(usize, u64, Tok)>);

impl SystemError for Errs {
    fn combine(mut self, other: Errs) -> Errs {
        self.0.extend(other.0);
        self
    }
}

struct Leaf<P> {
    id: usize,
    rw: Rw,
    /// Conflicts with itself.
    broken: bool,
    ctx: Arc<Ctx>,
    /// State of the system itself, which repeated runs must keep.
    runs: u64,
    marker: PhantomData<fn(&P)>,
}

fn pause(n: u64) {
    match n % 16 {
        0..=7 => {}
        8..=10 => std::thread::yield_now(),
        11..=14 => (0..n % 997).for_each(|_| std::hint::spin_loop()),
        _ => std::thread::sleep(std::time::Duration::from_micros(n % 120)),
    }
}

impl<P: PoolX> System<u64> for Leaf<P> {
    type Resources = RwResources<ResourceId>;
    type Pool = P;
    type Error = Errs;

    fn check_resources(&self) -> Result<Self::Resources, ResourceConflict> {
        if self.broken {
            Err(ResourceConflict::conflict_in::<Self>())
        } else {
            Ok(self.rw.real())
        }
    }

    fn run(&mut self, pool: &P, arg: u64) -> Result<(), Errs> {
        let ctx = &*self.ctx;
        let start = ctx.clock.fetch_add(1, Ordering::SeqCst);
        let plan = ctx.plan.lock().unwrap().clone();
        self.runs += 1;
        if arg != plan.arg {
            ctx.problem(format!("system {} was run with argument {arg} instead of {}", self.id, plan.arg));
        }
        if pool.tag() != plan.tag {
            ctx.problem(format!("system {} was run with another pool than the combination", self.id));
        }
        let end = |ctx: &Ctx| {
            let end = ctx.clock.fetch_add(1, Ordering::SeqCst);
            ctx.events.lock().unwrap().push(Ev {
                leaf: self.id,
                start,
                end,
                path: PATH.with(|p| p.borrow().clone()),
            });
        };
        let d = mix(plan.delay, self.id as u64);
        if plan.delay != 0 {
            pause(d >> 40);
        }
        let wait = || {
            if plan.delay != 0 {
                pause(d >> 20)
            }
            if plan.panic.contains(&self.id) {
                end(ctx);
                panic!("{} in system {}", gmon::ledger::INJECTED, self.id);
            }
        };
        if plan.borrow {
            match catch_unwind(AssertUnwindSafe(|| with_borrows(&ctx.set, &self.rw, self.id, wait))) {
                Ok(()) => {}
                Err(p) => {
                    let msg = p.downcast_ref::<String>().cloned().unwrap_or_default();
                    if !msg.starts_with(gmon::ledger::INJECTED) {
                        ctx.problem(format!("system {} was refused a borrow it had declared: {msg}", self.id));
                    }
                    resume_unwind(p);
                }
            }
        } else {
            wait();
        }
        let fails = plan.fail.contains(&self.id);
        end(ctx);
        if fails {
            Err(Errs(vec![(self.id, arg, Tok::in_table(ctx.table))]))
        } else {
            Ok(())
        }
    }
}

type Dyn<P> = Box<dyn System<u64, Resources = RwResources<ResourceId>, Pool = P, Error = Errs> + Send>;

/// What a combination is.
#[derive(Clone, Debug)]
enum T {
    Leaf(usize),
    Par(Vec<T>),
    Seq(Vec<T>),
}

impl T {
    fn leaves(&self, out: &mut Vec<usize>) {
        match self {
            T::Leaf(n) => out.push(*n),
            T::Par(l) | T::Seq(l) => l.iter().for_each(|t| t.leaves(out)),
        }
    }
    fn all(&self) -> Vec<usize> {
        let mut v = Vec::new();
        self.leaves(&mut v);
        v
    }

    /// What checking must say.
    fn check(&self, leaves: &[(Rw, bool)]) -> Result<Rw, ()> {
        match self {
            T::Leaf(n) => match &leaves[*n] {
                (_, true) => Err(()),
                (rw, false) => Ok(rw.clone()),
            },
            T::Par(l) => {
                let parts = l.iter().map(|t| t.check(leaves)).collect::<Result<Vec<_>, _>>()?;
                for i in 0..parts.len() {
                    for j in 0..i {
                        if parts[i].conflicts(&parts[j]) {
                            return Err(());
                        }
                    }
                }
                let mut u = Rw::default();
                parts.iter().for_each(|p| u.union(p));
                Ok(u)
            }
            T::Seq(l) => {
                let mut u = Rw::default();
                for t in l {
                    u.union(&t.check(leaves)?);
                }
                Ok(u)
            }
        }
    }

    /// Which systems must run, and whether the whole succeeds.
    fn exec(&self, fail: &BTreeSet<usize>, ran: &mut Vec<usize>) -> bool {
        match self {
            T::Leaf(n) => {
                ran.push(*n);
                !fail.contains(n)
            }
            T::Par(l) => {
                let mut ok = true;
                for t in l {
                    ok &= t.exec(fail, ran);
                }
                ok
            }
            T::Seq(l) => l.iter().all(|t| t.exec(fail, ran)),
        }
    }

    /// Every pair of systems of which the first must be over before the second starts.
    fn ordered(&self, out: &mut Vec<(usize, usize)>) {
        match self {
            T::Leaf(_) => {}
            T::Par(l) => l.iter().for_each(|t| t.ordered(out)),
            T::Seq(l) => {
                for (n, t) in l.iter().enumerate() {
                    t.ordered(out);
                    for later in &l[n + 1..] {
                        for a in t.all() {
                            out.extend(later.all().into_iter().map(|b| (a, b)));
                        }
                    }
                }
            }
        }
    }
}

struct Forest<P> {
    ctx: Arc<Ctx>,
    leaves: Vec<(Rw, bool)>,
    /// About how many systems at most.
    cap: usize,
    marker: PhantomData<fn(&P)>,
}

impl<P: PoolX> Forest<P> {
    fn leaf(&mut self, rng: &mut Rng, style: &Style) -> (Leaf<P>, T) {
        let id = self.leaves.len();
        let rw = style.rw(rng);
        let broken = rng.chance(style.broken, 1000);
        self.leaves.push((rw.clone(), broken));
        (
            Leaf {
                id,
                rw,
                broken,
                ctx: self.ctx.clone(),
                runs: 0,
                marker: PhantomData,
            },
            T::Leaf(id),
        )
    }

    /// A random combination: parallel branches share out what may be written when `style` says so.
    fn tree(&mut self, rng: &mut Rng, style: &Style, depth: u32) -> (Dyn<P>, T) {
        if depth == 0 || self.leaves.len() > self.cap || rng.chance(1, 4) {
            let (l, t) = self.leaf(rng, style);
            return (if rng.chance(1, 6) { Box::new(Box::new(l)) } else { Box::new(l) }, t);
        }
        if rng.chance(1, 6) {
            return self.fixed(rng, style);
        }
        let parallel = rng.bool();
        let n = match rng.below(12) {
            0 => 0,
            1 => 1,
            2..=5 => 2,
            6..=8 => 3,
            9..=10 => rng.range(4, 6) as usize,
            _ if self.cap > 40 && self.leaves.len() < 100 => rng.range(12, 200) as usize,
            _ => rng.range(7, 12) as usize,
        };
        let styles = if parallel { style.split(rng, n) } else { vec![style.clone(); n] };
        let mut sys = Vec::new();
        let mut model = Vec::new();
        for s in &styles {
            let (d, t) = self.tree(rng, s, depth - 1);
            sys.push(d);
            model.push(t);
        }
        let list = n < 2 || rng.bool();
        if parallel {
            let d: Dyn<P> = if list {
                Box::new(ParList(sys))
            } else {
                let mut i = sys.into_iter();
                let mut next = || i.next().unwrap();
                match n {
                    2 if rng.bool() => Box::new(Par::new(next(), next())),
                    2 => Box::new(par!(next(), next())),
                    3 if rng.bool() => Box::new(Par::new(next(), next()).with(next())),
                    3 => Box::new(par!(next(), next(), next())),
                    4 => Box::new(par![next(), next(), next(), next(),]),
                    5 => Box::new(par!(next(), next(), next(), next(), next())),
                    _ => {
                        let five = par!(next(), next(), next(), next(), next());
                        Box::new(five.with(ParList(i.collect::<Vec<_>>())))
                    }
                }
            };
            (d, T::Par(model))
        } else {
            let d: Dyn<P> = if list {
                Box::new(SeqList(sys))
            } else {
                let mut i = sys.into_iter();
                let mut next = || i.next().unwrap();
                match n {
                    2 if rng.bool() => Box::new(Seq::new(next(), next())),
                    2 => Box::new(seq!(next(), next())),
                    3 if rng.bool() => Box::new(Seq::new(next(), next()).with(next())),
                    3 => Box::new(seq!(next(), next(), next())),
                    4 => Box::new(seq![next(), next(), next(), next(),]),
                    5 => Box::new(seq!(next(), next(), next(), next(), next())),
                    _ => {
                        let five = seq!(next(), next(), next(), next(), next());
                        Box::new(five.with(SeqList(i.collect::<Vec<_>>())))
                    }
                }
            };
            (d, T::Seq(model))
        }
    }

    /// Combinations of unboxed systems.
    fn fixed(&mut self, rng: &mut Rng, style: &Style) -> (Dyn<P>, T) {
        let shape = rng.below(9);
        // (slots of these shapes are never so few that a split would not work)
        let styles = style.split(rng, 8);
        let mut l = Vec::new();
        let mut t = Vec::new();
        for s in &styles {
            let (a, b) = self.leaf(rng, s);
            l.push(a);
            t.push(b);
        }
        let mut i = l.into_iter();
        let mut s = || i.next().unwrap();
        let t = &mut t.into_iter();
        let mut m = || t.next().unwrap();
        use self::T::{Par as MP, Seq as MS};
        match shape {
            0 => (Box::new(Par::new(s(), s())), MP(vec![m(), m()])),
            1 => (Box::new(Seq::new(s(), s()).with(s()).with(s()).with(s())), MS(vec![m(), m(), m(), m(), m()])),
            2 => (
                Box::new(par!(s(), s(), s(), s(), s(), s(), s(), s())),
                MP((0..8).map(|_| m()).collect()),
            ),
            3 => (
                Box::new(par!(s(), seq!(s(), s()), ParList(vec![s(), s()]))),
                MP(vec![m(), MS(vec![m(), m()]), MP(vec![m(), m()])]),
            ),
            4 => (
                Box::new(seq!(par!(s(), s(), s()), s(), SeqList(vec![s(), s(), s()]), ParList(vec![s()]))),
                MS(vec![MP(vec![m(), m(), m()]), m(), MS(vec![m(), m(), m()]), MP(vec![m()])]),
            ),
            5 => (
                Box::new(SeqList(vec![Par::new(s(), s()), Par::new(s(), s()), Par::new(s(), s())])),
                MS(vec![MP(vec![m(), m()]), MP(vec![m(), m()]), MP(vec![m(), m()])]),
            ),
            6 => (
                Box::new(ParList(vec![Seq::new(s(), s()), Seq::new(s(), s()), Seq::new(s(), s()), Seq::new(s(), s())])),
                MP(vec![MS(vec![m(), m()]), MS(vec![m(), m()]), MS(vec![m(), m()]), MS(vec![m(), m()])]),
            ),
            7 => (
                Box::new(Box::new(seq!(Box::new(s()), Box::new(par!(Box::new(s()), s()))))),
                MS(vec![m(), MP(vec![m(), m()])]),
            ),
            _ => (
                Box::new(Par::new(Seq::new(Par::new(s(), s()), Par::new(s(), s())), Seq::new(Par::new(s(), s()), s())).with(s())),
                MP(vec![
                    MS(vec![MP(vec![m(), m()]), MP(vec![m(), m()])]),
                    MS(vec![MP(vec![m(), m()]), m()]),
                    m(),
                ]),
            ),
        }
    }
}

/// How resources are chosen.
#[derive(Clone, Debug)]
struct Style {
    /// May be written (or read) here.
    own: Vec<usize>,
    /// May only be read.
    shared: Vec<usize>,
    /// Parallel branches get separate resources, except with this probability in 1000.
    stray: u64,
    broken: u64,
    density: u64,
}

impl Style {
    fn rw(&self, rng: &mut Rng) -> Rw {
        let mut rw = Rw::default();
        for k in &self.own {
            match rng.below(self.density) {
                0 => drop(rw.writes.insert(*k)),
                1 => drop(rw.reads.insert(*k)),
                _ => {}
            }
        }
        for k in &self.shared {
            if rng.below(self.density) < 2 {
                rw.reads.insert(*k);
            }
        }
        if rng.chance(self.stray, 1000) {
            let k = rng.idx(K);
            if !rw.writes.contains(&k) {
                if rng.bool() {
                    rw.reads.remove(&k);
                    rw.writes.insert(k);
                } else {
                    rw.reads.insert(k);
                }
            }
        }
        rw
    }

    fn split(&self, rng: &mut Rng, n: usize) -> Vec<Style> {
        let mut v: Vec<Style> = (0..n)
            .map(|_| Style {
                own: Vec::new(),
                ..self.clone()
            })
            .collect();
        if n == 0 {
            return v;
        }
        for k in &self.own {
            if rng.chance(1, 5) {
                // Nobody writes it.
                v.iter_mut().for_each(|s| s.shared.push(*k));
            } else {
                let at = rng.idx(n);
                v[at].own.push(*k);
            }
        }
        v
    }
}

fn style(rng: &mut Rng) -> Style {
    let mut ks: Vec<usize> = (0..K).collect();
    rng.shuffle(&mut ks);
    let n = rng.range(2, K as u64) as usize;
    let shared = ks.split_off(n.min(rng.range(1, K as u64) as usize));
    Style {
        own: ks,
        shared: shared.into_iter().filter(|_| rng.bool()).collect(),
        stray: *rng.pick(&[0, 0, 20, 100, 300]),
        broken: *rng.pick(&[0, 0, 0, 0, 10, 60]),
        density: rng.range(2, 8),
    }
}

/// What a run must show.
fn judge<P: PoolX>(
    c: &mut Case,
    ctx: &Ctx,
    tree: &T,
    leaves: &[(Rw, bool)],
    plan: &Plan,
    got: Result<Result<(), Errs>, gmon::Caught>,
    accepted: bool,
) -> Res {
    let events = std::mem::take(&mut *ctx.events.lock().unwrap());
    if let Some(p) = ctx.problems.lock().unwrap().first() {
        return Err(p.clone());
    }
    let mut at: BTreeMap<usize, &Ev> = BTreeMap::new();
    for e in &events {
        ensure!(at.insert(e.leaf, e).is_none(), "system {} was run twice in one run of {tree:?}", e.leaf);
    }
    c.count("systems run", events.len() as u64);
    let overlaps = events
        .iter()
        .enumerate()
        .map(|(n, a)| events[..n].iter().filter(|b| a.start < b.end && b.start < a.end).count() as u64)
        .sum();
    c.count("pairs of systems seen overlapping", overlaps);
    let mut ran = Vec::new();
    // (A system that panics ends the run like a failure, for those in sequence after it.)
    let fail: BTreeSet<usize> = plan.fail.union(&plan.panic).copied().collect();
    let ok = tree.exec(&fail, &mut ran);
    let expected: BTreeSet<usize> = ran.iter().copied().collect();
    let got_ran: BTreeSet<usize> = at.keys().copied().collect();
    let gone_off = ran.iter().any(|l| plan.panic.contains(l));
    if gone_off {
        ensure!(
            got_ran.is_subset(&expected),
            "systems {:?} ran although a system placed in sequence before them had not succeeded",
            got_ran.difference(&expected).collect::<Vec<_>>()
        );
    } else {
        ensure!(
            got_ran == expected,
            "of {tree:?} with failures {:?}: systems {:?} did not run, systems {:?} should not have run",
            plan.fail,
            expected.difference(&got_ran).collect::<Vec<_>>(),
            got_ran.difference(&expected).collect::<Vec<_>>()
        );
    }
    let mut order = Vec::new();
    tree.ordered(&mut order);
    for (a, b) in &order {
        if let (Some(ea), Some(eb)) = (at.get(a), at.get(b)) {
            ensure!(
                ea.end < eb.start,
                "system {b} was started before system {a}, placed in sequence before it, had finished"
            );
            if P::SPY {
                ensure!(
                    !may_overlap(&ea.path, &eb.path),
                    "systems {a} and {b}, which are in sequence, were given to the pool to run in parallel"
                );
            }
        }
    }
    c.count("ordered pairs", order.len() as u64);
    if accepted {
        let mut forked = 0;
        for (n, a) in events.iter().enumerate() {
            for b in &events[..n] {
                let over = if P::SPY { may_overlap(&a.path, &b.path) } else { a.start < b.end && b.start < a.end };
                forked += over as u64;
                ensure!(
                    !over || !leaves[a.leaf].0.conflicts(&leaves[b.leaf].0),
                    "systems {} and {} conflict, and may overlap in a combination whose check found no conflict: {tree:?}",
                    a.leaf,
                    b.leaf
                );
            }
        }
        c.count("pairs of systems that could overlap", forked);
    }
    match got {
        Err(p) => {
            ensure!(gone_off && p.msg.starts_with(gmon::ledger::INJECTED), "run panicked: {}", p.msg);
            c.count("runs with a panicking system", 1);
        }
        Ok(_) if gone_off => return Err("a panic in a system body was swallowed".into()),
        Ok(r) => {
            let mut errs: Vec<usize> = Vec::new();
            match r {
                Ok(()) => ensure!(ok, "run succeeded although systems {:?} failed: {tree:?}", plan.fail.intersection(&expected)),
                Err(e) => {
                    ensure!(!ok, "run failed with {e:?} although every system succeeded: {tree:?}");
                    for (leaf, arg, t) in &e.0 {
                        ensure!(t.sane() && *arg == plan.arg, "an error of an earlier run was reported: {e:?}");
                        errs.push(*leaf);
                    }
                }
            }
            errs.sort();
            let want: Vec<usize> = expected.intersection(&plan.fail).copied().collect();
            ensure_eq!(errs, want, "errors reported by a run of {tree:?}");
            c.count("errors combined", want.len() as u64);
        }
    }
    c.mix(got_ran.iter().fold(0, |h, x| mix(h, *x as u64)));
    Ok(())
}

#[derive(Clone, Copy, PartialEq)]
enum Focus {
    Schedule,
    Run,
    Panics,
}

fn free(ctx: &Ctx) -> Res {
    for k in 0..K {
        for_type!(k, T => ensure!(catch(|| { ctx.set.borrow_mut::<T>(); }).is_ok(), "a borrow of resource {k} is still held after the run"));
    }
    Ok(())
}

fn combos<P: PoolX>(c: &mut Case, focus: Focus, mut pool: impl FnMut(&mut Rng) -> P, install: bool) -> Res {
    let ledger = Ledger::new();
    let ctx = Ctx::new(&ledger);
    let mut f = Forest::<P> {
        ctx: ctx.clone(),
        leaves: Vec::new(),
        cap: 40,
        marker: PhantomData,
    };
    let style = style(&mut c.rng);
    let mut depth = c.rng.range(1, 4) as u32;
    if c.rng.chance(1, 30) {
        // (deep or long)
        f.cap = 250;
        depth = c.rng.range(1, 9) as u32;
    }
    let (mut sys, tree) = {
        let mut rng = c.rng.fork();
        f.tree(&mut rng, &style, depth)
    };
    let leaves = f.leaves.clone();
    c.op("combination", leaves.len() as u64, depth as u64);
    c.mix_str(&format!("{tree:?}{leaves:?}"));
    c.max("largest combination", leaves.len() as u64);
    let want = tree.check(&leaves);
    if focus == Focus::Schedule {
        for _ in 0..2 {
            match (sys.check_resources(), &want) {
                (Ok(r), Ok(rw)) => ensure!(
                    rw.is(&r),
                    "resources reported for {tree:?}: reads {:?}, writes {:?}; expected {rw:?} (declared: {leaves:?})",
                    r.reads().collect::<Vec<_>>(),
                    r.writes().collect::<Vec<_>>()
                ),
                (Err(_), Err(())) => {}
                (Ok(_), Err(())) => {
                    return Err(format!("a conflict was not reported in {tree:?}, declared: {leaves:?}"));
                }
                (Err(e), Ok(_)) => {
                    return Err(format!("{e} was reported in {tree:?}, which has none, declared: {leaves:?}"));
                }
            }
        }
        c.count(if want.is_ok() { "accepted" } else { "refused" }, 1);
    }
    c.nontrivial = leaves.len() > 1;
    let accepted = want.is_ok();
    if focus == Focus::Schedule && !accepted {
        return Ok(());
    }
    let mut model: [u64; K] = state_of(&ctx.set);
    let runs = if c.rng.chance(1, 40) { 25 } else { c.rng.range(1, 4) };
    for run in 0..runs {
        let p = pool(&mut c.rng);
        let mut plan = Plan {
            arg: c.rng.u64(),
            tag: p.tag(),
            borrow: accepted,
            delay: if c.rng.bool() { c.rng.u64() } else { 0 },
            ..Plan::default()
        };
        let all = tree.all();
        let some = |rng: &mut Rng| -> BTreeSet<usize> {
            let d = *rng.pick(&[1u64, 2, 4, 12, 30]);
            all.iter().copied().filter(|_| rng.chance(1, d)).collect()
        };
        if c.rng.chance(2, 3) {
            plan.fail = some(&mut c.rng);
        }
        if focus == Focus::Panics && c.rng.chance(3, 4) && !all.is_empty() {
            plan.panic.insert(*c.rng.pick(&all));
            if c.rng.chance(1, 4) {
                plan.panic = some(&mut c.rng);
            }
        }
        let plan = Arc::new(plan);
        *ctx.plan.lock().unwrap() = plan.clone();
        c.op("run", run, plan.fail.len() as u64);
        let mut body = || catch(|| sys.run(&p, plan.arg));
        let got = if install {
            let n = c.rng.idx(rayon_pools().len());
            rayon_pools()[n].install(body)
        } else {
            body()
        };
        let panicked = got.is_err();
        judge::<P>(c, &ctx, &tree, &leaves, &plan, got, accepted)?;
        free(&ctx)?;
        ensure_eq!(ledger.live_count(), 0, "errors that are still alive after they were reported and dropped");
        ledger.check()?;
        if accepted && !panicked {
            let mut ran = Vec::new();
            tree.exec(&plan.fail, &mut ran);
            for l in ran {
                leaves[l].0.apply(l, &mut model);
            }
            ensure_eq!(state_of(&ctx.set), model, "resources after a run of {tree:?}, compared to running it in order");
        } else {
            model = state_of(&ctx.set);
        }
    }
    Ok(())
}

/// Systems that are all of the same type, with a number.
struct Numbered<P: PoolX> {
    n: usize,
    inner: Dyn<P>,
}

impl<P: PoolX> System<u64> for Numbered<P> {
    type Resources = RwResources<ResourceId>;
    type Pool = P;
    type Error = Errs;
    fn check_resources(&self) -> Result<Self::Resources, ResourceConflict> {
        self.inner.check_resources()
    }
    fn run(&mut self, pool: &P, arg: u64) -> Result<(), Errs> {
        self.inner.run(pool, arg)
    }
}

fn automatic<P: PoolX>(c: &mut Case, mut pool: impl FnMut(&mut Rng) -> P, install: bool) -> Res {
    let ledger = Ledger::new();
    let ctx = Ctx::new(&ledger);
    let mut f = Forest::<P> {
        ctx: ctx.clone(),
        leaves: Vec::new(),
        cap: 40,
        marker: PhantomData,
    };
    let mut rng = c.rng.fork();
    let mut style = style(&mut rng);
    let long = rng.chance(1, 30);
    style.density = if long { rng.range(10, 300) } else { rng.range(2, 20) };
    style.broken = *rng.pick(&[0, 0, 20, 150, 500]);
    let n = match rng.below(10) {
        0 => 0,
        1 => 1,
        _ if long => rng.range(40, 300),
        2..=6 => rng.range(2, 10),
        _ => rng.range(8, 30),
    };
    let nested = rng.chance(1, 3);
    let mut items = Vec::new();
    let mut models = Vec::new();
    for k in 0..n as usize {
        let (d, t) = if nested && rng.chance(1, 3) {
            let parts = style.split(&mut rng, 2);
            f.tree(&mut rng, &parts[0], 2)
        } else {
            let (l, t) = f.leaf(&mut rng, &style);
            (Box::new(l) as Dyn<P>, t)
        };
        items.push(Numbered { n: k, inner: d });
        models.push(t);
    }
    let leaves = f.leaves.clone();
    c.op("list", n, leaves.len() as u64);
    c.mix_str(&format!("{models:?}{leaves:?}"));
    let needs: Vec<Result<Rw, ()>> = models.iter().map(|t| t.check(&leaves)).collect();
    // The documented grouping.
    let mut groups: Vec<Vec<usize>> = Vec::new();
    let mut open = false;
    for (k, need) in needs.iter().enumerate() {
        match need {
            Err(()) => {
                groups.push(vec![k]);
                open = false;
            }
            Ok(rw) => {
                let fits = open
                    && groups.last().unwrap().iter().all(|m| !needs[*m].as_ref().unwrap().conflicts(rw));
                if fits {
                    groups.last_mut().unwrap().push(k);
                } else {
                    groups.push(vec![k]);
                }
                open = true;
            }
        }
    }
    let mut sys: SeqList<ParList<Numbered<P>>> = if rng.bool() {
        parallelize::<u64, _>(items)
    } else {
        // any iterator will do
        let mut i = items.into_iter();
        parallelize::<u64, _>(std::iter::from_fn(move || i.next()))
    };
    let got: Vec<Vec<usize>> = sys.0.iter().map(|g| g.0.iter().map(|s| s.n).collect()).collect();
    let flat: Vec<usize> = got.iter().flatten().copied().collect();
    let mut sorted = flat.clone();
    sorted.sort();
    ensure_eq!(sorted, (0..n as usize).collect::<Vec<_>>(), "systems of the result, each of which must be there once");
    for g in &got {
        for (i, a) in g.iter().enumerate() {
            for b in &g[..i] {
                match (&needs[*a], &needs[*b]) {
                    (Ok(x), Ok(y)) => ensure!(!x.conflicts(y), "systems {a} and {b} conflict, and were put together: {needs:?}"),
                    _ => return Err(format!("a system with an internal conflict was put together with others: {g:?}, {needs:?}")),
                }
            }
        }
    }
    // (The order within a group, and empty groups, do not matter.)
    let shape = |v: &[Vec<usize>]| -> Vec<BTreeSet<usize>> {
        v.iter().filter(|g| !g.is_empty()).map(|g| g.iter().copied().collect()).collect()
    };
    ensure_eq!(shape(&got), shape(&groups), "groups for {needs:?}");
    let broken = needs.iter().any(|x| x.is_err());
    let mut union = Rw::default();
    needs.iter().flatten().for_each(|x| union.union(x));
    match sys.check_resources() {
        Err(e) => ensure!(broken, "{e} was reported for a list of which no system conflicts with itself: {needs:?}"),
        Ok(r) => {
            ensure!(!broken, "an internal conflict was not reported: {needs:?}");
            ensure!(union.is(&r), "resources reported after parallelisation of {needs:?}");
        }
    }
    c.count("groups", groups.len() as u64);
    c.count("systems grouped", n);
    c.count("lists with an internal conflict", broken as u64);
    c.nontrivial = n > 1 && groups.len() < n as usize;
    c.max("largest group", groups.iter().map(Vec::len).max().unwrap_or(0) as u64);
    let tree = T::Seq(groups.iter().map(|g| T::Par(g.iter().map(|k| models[*k].clone()).collect())).collect());
    let mut model = state_of(&ctx.set);
    for run in 0..rng.range(1, 3) {
        let p = pool(&mut rng);
        let plan = Arc::new(Plan {
            arg: rng.u64(),
            tag: p.tag(),
            borrow: !broken,
            delay: if rng.bool() { rng.u64() } else { 0 },
            fail: if run == 0 {
                BTreeSet::new()
            } else {
                tree.all().into_iter().filter(|_| rng.chance(1, 8)).collect()
            },
            ..Plan::default()
        });
        *ctx.plan.lock().unwrap() = plan.clone();
        let mut body = || catch(|| sys.run(&p, plan.arg));
        let got = if install {
            let n = rng.idx(rayon_pools().len());
            rayon_pools()[n].install(body)
        } else {
            body()
        };
        c.op("run", run, plan.fail.len() as u64);
        // Any system that conflicts with an earlier one starts after it has finished.
        let events = ctx.events.lock().unwrap().clone();
        let at: BTreeMap<usize, &Ev> = events.iter().map(|e| (e.leaf, e)).collect();
        for (j, tj) in models.iter().enumerate() {
            for (i, ti) in models[..j].iter().enumerate() {
                let conflict = match (&needs[i], &needs[j]) {
                    (Ok(a), Ok(b)) => a.conflicts(b),
                    _ => true,
                };
                if !conflict {
                    continue;
                }
                for a in ti.all() {
                    for b in tj.all() {
                        if let (Some(x), Some(y)) = (at.get(&a), at.get(&b)) {
                            ensure!(
                                x.end < y.start && !(P::SPY && may_overlap(&x.path, &y.path)),
                                "number {j} of the list (system {b}) started before number {i} (system {a}), which conflicts with it, had finished"
                            );
                            c.count("conflicting pairs in order", 1);
                        }
                    }
                }
            }
        }
        judge::<P>(c, &ctx, &tree, &leaves, &plan, got, !broken)?;
        free(&ctx)?;
        if !broken {
            // Like running the list in order (as far as it got).
            let mut ran = Vec::new();
            tree.exec(&plan.fail, &mut ran);
            ran.sort();
            for l in ran {
                leaves[l].0.apply(l, &mut model);
            }
            ensure_eq!(state_of(&ctx.set), model, "resources, compared to running the list in order: {needs:?}");
        }
    }
    Ok(())
}

/// Error types and pools that cannot be made up at run time.
fn plain(c: &mut Case) -> Res {
    struct Count<'a>(&'a AtomicU64, PhantomData<fn()>);
    impl<'a, 'b> System<&'b [u64]> for Count<'a> {
        type Resources = RwResources<&'static str>;
        type Pool = RayonPool;
        type Error = Infallible;
        fn check_resources(&self) -> Result<Self::Resources, ResourceConflict> {
            Ok(RwResources::new().read("a"))
        }
        fn run(&mut self, _: &RayonPool, arg: &'b [u64]) -> Result<(), Infallible> {
            self.0.fetch_add(arg.iter().sum::<u64>(), Ordering::Relaxed);
            Ok(())
        }
    }
    let n = AtomicU64::new(0);
    let arg: Vec<u64> = (0..c.rng.range(1, 50)).collect();
    let s = || Count(&n, PhantomData);
    let mut sys = par!(s(), seq!(s(), s(), ParList(vec![s(), s(), s()])), SeqList(vec![s(), s()]));
    let r = sys.check_resources().map_err(|e| e.to_string())?;
    ensure!(r.reads().eq(["a"].iter()) && r.writes().next().is_none(), "resources of systems that only read");
    for round in 1..4u64 {
        let Ok(()) = sys.run(&RayonPool, &arg);
        ensure_eq!(n.load(Ordering::Relaxed), round * 8 * arg.iter().sum::<u64>(), "effect of 8 systems, round {round}");
    }
    c.op("plain", arg.len() as u64, 0);
    c.nontrivial = true;
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Systems and errors of any size, also none: everything they do is on the board they get as argument.

struct Board {
    arg: u64,
    /// System and how many times it was run before.
    fail: BTreeSet<(usize, u64)>,
    clock: AtomicU64,
    log: Mutex<Vec<(usize, u64, u64, u64)>>,
    delay: u64,
}

impl Board {
    fn run(&self, id: usize) -> bool {
        let start = self.clock.fetch_add(1, Ordering::SeqCst);
        pause(mix(self.delay, id as u64));
        let end = self.clock.fetch_add(1, Ordering::SeqCst);
        let mut log = self.log.lock().unwrap();
        let before = log.iter().filter(|e| e.0 == id).count() as u64;
        log.push((id, before, start, end));
        self.fail.contains(&(id, before))
    }
}

trait ErrX: SystemError + Send + std::fmt::Debug + 'static {
    const NAME: &'static str;
    fn of(id: usize) -> Self;
    /// The systems reported, each as often as reported, if that can be told.
    fn ids(&self) -> Option<Vec<usize>>;
}

/// An error without contents.
#[derive(Debug)]
struct Gone;

impl SystemError for Gone {
    fn combine(self, _: Gone) -> Gone {
        Gone
    }
}

impl ErrX for Gone {
    const NAME: &'static str = "an empty error";
    fn of(_: usize) -> Gone {
        Gone
    }
    fn ids(&self) -> Option<Vec<usize>> {
        None
    }
}

#[derive(Debug)]
struct Names(Vec<usize>);

impl SystemError for Names {
    fn combine(mut self, o: Names) -> Names {
        self.0.extend(o.0);
        self
    }
}

impl ErrX for Names {
    const NAME: &'static str = "a list of names";
    fn of(id: usize) -> Names {
        Names(vec![id])
    }
    fn ids(&self) -> Option<Vec<usize>> {
        let mut v = self.0.clone();
        v.sort();
        Some(v)
    }
}

/// Counters in place.
#[derive(Debug)]
struct Tally([u8; 96]);

impl SystemError for Tally {
    fn combine(mut self, o: Tally) -> Tally {
        self.0.iter_mut().zip(o.0).for_each(|(a, b)| *a += b);
        self
    }
}

impl ErrX for Tally {
    const NAME: &'static str = "a wide error";
    fn of(id: usize) -> Tally {
        let mut t = [0; 96];
        t[id] = 1;
        Tally(t)
    }
    fn ids(&self) -> Option<Vec<usize>> {
        Some((0..96).flat_map(|i| std::iter::repeat_n(i, self.0[i] as usize)).collect())
    }
}

struct Bit<const N: usize, B, E, P>(B, PhantomData<fn(&P) -> E>);

impl<'b, const N: usize, B, E: ErrX, P: PoolX> System<&'b Board> for Bit<N, B, E, P> {
    type Resources = RwResources<usize>;
    type Pool = P;
    type Error = E;
    fn check_resources(&self) -> Result<RwResources<usize>, ResourceConflict> {
        // Those above 30 only read.
        Ok(if N > 30 { RwResources::new().read(99) } else { RwResources::new().write(N).read(99) })
    }
    fn run(&mut self, _: &P, board: &'b Board) -> Result<(), E> {
        if board.run(N) {
            Err(E::of(N))
        } else {
            Ok(())
        }
    }
}

type Bits<E, P> = Box<dyn for<'b> System<&'b Board, Resources = RwResources<usize>, Pool = P, Error = E> + Send>;

fn bits<B: Default + Send + 'static, E: ErrX, P: PoolX>(shape: u64, n: usize) -> (Bits<E, P>, T) {
    use self::T::{Leaf as L, Par as MP, Seq as MS};
    macro_rules! b {
        ($n:literal) => {
            Bit::<$n, B, E, P>(B::default(), PhantomData)
        };
    }
    let par = |l: &[usize]| MP(l.iter().map(|i| L(*i)).collect());
    let seq = |l: &[usize]| MS(l.iter().map(|i| L(*i)).collect());
    match shape {
        0 => (Box::new(Seq::new(b!(0), b!(1))), seq(&[0, 1])),
        1 => (Box::new(Par::new(b!(0), b!(1))), par(&[0, 1])),
        2 => (Box::new(seq!(b!(0), b!(1), b!(2), b!(3), b!(0))), seq(&[0, 1, 2, 3, 0])),
        3 => (Box::new(par!(b!(0), b!(1), b!(2), b!(3), b!(4), b!(5))), par(&[0, 1, 2, 3, 4, 5])),
        4 => (
            Box::new(seq!(par!(b!(0), b!(1)), b!(2), par!(b!(3), seq!(b!(4), b!(5), b!(6)), b!(7)))),
            MS(vec![par(&[0, 1]), L(2), MP(vec![L(3), seq(&[4, 5, 6]), L(7)])]),
        ),
        5 => (
            Box::new(par!(seq!(b!(0), b!(1)), seq!(b!(2), par!(b!(3), b!(4)), b!(5)), b!(6))),
            MP(vec![seq(&[0, 1]), MS(vec![L(2), par(&[3, 4]), L(5)]), L(6)]),
        ),
        6 => (Box::new(SeqList((0..n).map(|_| b!(7)).collect())), MS(vec![L(7); n])),
        7 => (Box::new(ParList((0..n).map(|_| b!(40)).collect())), MP(vec![L(40); n])),
        8 => (
            Box::new(seq!(ParList((0..n).map(|_| b!(41)).collect()), b!(0), SeqList((0..n).map(|_| b!(8)).collect()))),
            MS(vec![MP(vec![L(41); n]), L(0), MS(vec![L(8); n])]),
        ),
        9 => (
            Box::new(parallelize((0..n).map(|_| b!(42)))),
            MP(vec![L(42); n]),
        ),
        10 => (Box::new(parallelize((0..n).map(|_| b!(9)))), MS(vec![L(9); n])),
        // Those three have a conflict.
        11 => (Box::new(Par::new(b!(0), b!(0))), par(&[0, 0])),
        12 => (Box::new(par!(b!(0), seq!(b!(1), b!(2)), b!(3), b!(2))), MP(vec![L(0), seq(&[1, 2]), L(3), L(2)])),
        _ => (Box::new(ParList((0..n.max(2)).map(|_| b!(10)).collect())), MP(vec![L(10); n.max(2)])),
    }
}

impl T {
    /// Runs against the numbered occurrences on the board; gives whether it succeeds.
    fn play(&self, fail: &BTreeSet<(usize, u64)>, ran: &mut Vec<usize>) -> bool {
        match self {
            T::Leaf(n) => {
                let before = ran.iter().filter(|r| *r == n).count() as u64;
                ran.push(*n);
                !fail.contains(&(*n, before))
            }
            T::Par(l) => {
                let mut ok = true;
                for t in l {
                    ok &= t.play(fail, ran);
                }
                ok
            }
            T::Seq(l) => l.iter().all(|t| t.play(fail, ran)),
        }
    }
}

fn stateless<B: Default + Send + 'static, E: ErrX, P: PoolX>(c: &mut Case, pool: &P) -> Res {
    let n = *c.rng.clone().pick(&[0, 1, 2, 3, 5, 9, 30]);
    let (mut sys, tree) = bits::<B, E, P>((c.no / 12) % 14, n);
    let what = format!("systems of {} bytes with {}, {tree:?}", std::mem::size_of::<B>(), E::NAME);
    c.mix_str(&what);
    let all = tree.all();
    let leaves: Vec<(Rw, bool)> = (0..96)
        .map(|k| {
            let mut rw = Rw::default();
            rw.reads.insert(99);
            if k <= 30 {
                rw.writes.insert(k);
            }
            (rw, false)
        })
        .collect();
    match (sys.check_resources(), tree.check(&leaves)) {
        (Ok(r), Ok(w)) => {
            let reads: BTreeSet<usize> = r.reads().copied().collect();
            let writes: BTreeSet<usize> = r.writes().copied().collect();
            ensure_eq!((reads, writes), (w.reads, w.writes), "resources reported for {what}");
        }
        (Err(_), Err(())) => {}
        (g, w) => return Err(format!("check of {what}: found {:?}, expected {w:?}", g.map_err(|e| e.to_string()).is_ok())),
    }
    // Which occurrence of a repeated system fails is told by its order of running, which in parallel is not known:
    // there the number of failures is what counts, and all run.
    for round in 0..c.rng.range(1, 6) {
        let mut board = Board {
            arg: c.rng.u64(),
            fail: BTreeSet::new(),
            clock: AtomicU64::new(0),
            log: Mutex::new(Vec::new()),
            delay: c.rng.u64(),
        };
        let often = *c.rng.pick(&[0, 1, 3]);
        for i in &all {
            if c.rng.chance(often, 6) {
                board.fail.insert((*i, c.rng.below(all.len() as u64)));
            }
        }
        let mut ran = Vec::new();
        let ok = tree.play(&board.fail, &mut ran);
        let got = catch(|| sys.run(pool, &board)).map_err(|p| format!("{what}: run panicked: {}", p.msg))?;
        let mut log = std::mem::take(&mut *board.log.lock().unwrap());
        let _ = board.arg;
        log.sort_by_key(|e| e.2);
        c.op("run", round, log.len() as u64);
        c.count("systems run", log.len() as u64);
        let mut mine: Vec<usize> = log.iter().map(|e| e.0).collect();
        mine.sort();
        let mut want = ran.clone();
        want.sort();
        ensure_eq!(mine, want, "systems run, with failures {:?} ({what})", board.fail);
        let mut order = Vec::new();
        tree.ordered(&mut order);
        if matches!(&tree, T::Seq(l) if l.iter().all(|t| matches!(t, T::Leaf(_)))) {
            ensure_eq!(log.iter().map(|e| e.0).collect::<Vec<_>>(), ran, "order of the systems run ({what})");
        } else {
            // A system in several places has no place in the order, except where all of them have.
            let mut times: BTreeMap<(usize, usize), usize> = BTreeMap::new();
            order.iter().for_each(|o| *times.entry(*o).or_default() += 1);
            for ((a, b), pairs) in times.iter().filter(|((a, b), _)| a != b) {
                let count = |i: usize| all.iter().filter(|a| **a == i).count();
                if *pairs < count(*a) * count(*b) {
                    continue;
                }
                for ea in log.iter().filter(|e| e.0 == *a) {
                    for eb in log.iter().filter(|e| e.0 == *b) {
                        ensure!(ea.3 < eb.2, "system {b} was started before system {a} had finished ({what})");
                    }
                }
            }
        }
        let failed: Vec<usize> = log.iter().filter(|e| board.fail.contains(&(e.0, e.1))).map(|e| e.0).collect();
        match got {
            Ok(()) => ensure!(ok, "run succeeded although systems {failed:?} failed ({what})"),
            Err(e) => {
                ensure!(!ok, "run failed with {e:?} although every system succeeded ({what})");
                if let Some(ids) = e.ids() {
                    let mut failed = failed.clone();
                    failed.sort();
                    ensure_eq!(ids, failed, "errors reported ({what})");
                }
            }
        }
        c.count("errors combined", failed.len() as u64);
    }
    c.nontrivial = all.len() > 1;
    Ok(())
}

fn sizes<P: PoolX>(c: &mut Case, pool: P) -> Res {
    match (c.no / 3) % 4 {
        0 => stateless::<(), Gone, P>(c, &pool),
        1 => stateless::<(), Names, P>(c, &pool),
        2 => stateless::<u8, Gone, P>(c, &pool),
        _ if c.rng.bool() => stateless::<[u64; 32], Tally, P>(c, &pool),
        _ => stateless::<(), Tally, P>(c, &pool),
    }
}

fn spy(rng: &mut Rng) -> SpyPool {
    let how = *rng.pick(&[
        How::InOrder,
        How::Reversed,
        How::ThreadA,
        How::ThreadB,
        How::Both,
        How::Rayon,
        How::Random,
        How::Random,
    ]);
    let salt = rng.u64();
    SpyPool::new(how, salt)
}

fn on_pools(c: &mut Case, f: Focus) -> Res {
    match c.no % 6 {
        0 => combos(c, f, |_| SeqPool, false),
        1..=2 => combos(c, f, |_| RayonPool, true),
        _ => combos(c, f, spy, false),
    }
}

const TREES: &str = "random combinations (pairs, chains by with/par!/seq!, lists, boxed, nested, mostly up to 50 and at times up to 900 systems) of systems over 16 resources, run 1 to 25 times with different failures and random delays on the sequential pool, rayon pools of 1 to 8 threads, and pools that record forks and run them in order, reversed or on new threads; non-trivial: more than one system";

fn main() {
    let opts = Opts::parse();
    let r = Runner::new(opts.clone());
    let t = opts.threads;
    match opts.id.as_str() {
        "C19" => r.run("schedules", &format!("{TREES}; verdict and reported resources against the model, then (if accepted) every overlap and borrow"), opts.n(6000, 100_000), t, |c| {
            on_pools(c, Focus::Schedule)
        }),
        "C20" => {
            r.run("runs", &format!("{TREES}; logged starts and ends of all systems against the model, errors as recorded values"), opts.n(6000, 100_000), t, |c| {
                on_pools(c, Focus::Run)
            });
            r.run(
                "stateless",
                "pairs, chains, lists and automatic groupings of systems of 0, 1 and 256 bytes with errors of 0, 24 and 96 bytes, run up to 5 times with different failures; what ran, in which order, and the errors",
                opts.n(4_000, 60_000),
                t,
                |c| match c.no % 3 {
                    0 => sizes(c, SeqPool),
                    1 => sizes(c, RayonPool),
                    _ => {
                        let p = spy(&mut c.rng);
                        sizes(c, p)
                    }
                },
            );
            r.run("plain", "combinations with errors that cannot happen", 20, 2, plain);
        }
        "C21" => r.run(
            "lists",
            "lists of up to 30, at times 300 systems (some nested combinations, some with internal conflicts) parallelised; groups, their verdict, and logged starts and ends against the documented greedy grouping; non-trivial: fewer groups than systems",
            opts.n(6000, 100_000),
            t,
            |c| match c.no % 6 {
                0 => automatic(c, |_| SeqPool, false),
                1..=2 => automatic(c, |_| RayonPool, true),
                _ => automatic(c, spy, false),
            },
        ),
        "C09" => r.run("panicking systems", &format!("{TREES}; some systems panic while they hold what they declared"), opts.n(4000, 60_000), t, |c| {
            on_pools(c, Focus::Panics)
        }),
        id => panic!("unknown property {id}"),
    }
    r.finish();
}
