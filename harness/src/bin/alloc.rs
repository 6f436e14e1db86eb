//! C01–C06: entity allocator monitors.
use std::{
    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Barrier, Mutex,
    },
};

use gmon::{catch, ensure, ensure_eq, pats, Case, Opts, Res, Rng, Runner};
use goggles::{
    entity::Allocator, hibitset::BitSetLike, Component, DenseVecStorage, Entity, Flagged, HashMapStorage, Index,
    IntoJoinExt, MaskedStorage, RawStorage, VecStorage, World, WrongGeneration,
};

#[derive(Copy, Clone, Debug, PartialEq, Default)]
struct Focus {
    unique: bool,
    alive: bool,
    merge: bool,
    conc: bool,
    reuse: bool,
    limits: bool,
}

/// The two public faces of an allocator.
enum Face {
    A(Allocator),
    W(World),
}

impl Face {
    fn new(world: bool) -> Face {
        if world {
            Face::W(World::new())
        } else {
            Face::A(Allocator::new())
        }
    }
    fn allocate(&mut self) -> Entity {
        match self {
            Face::A(a) => a.allocate(),
            Face::W(w) => w.create_entity(),
        }
    }
    fn allocate_atomic(&self) -> Entity {
        match self {
            Face::A(a) => a.allocate_atomic(),
            Face::W(w) => w.entities().create(),
        }
    }
    fn kill(&mut self, e: Entity) -> Result<(), WrongGeneration> {
        match self {
            Face::A(a) => a.kill(e),
            Face::W(w) => w.delete_entity(e),
        }
    }
    fn kill_atomic(&self, e: Entity) -> Result<(), WrongGeneration> {
        match self {
            Face::A(a) => a.kill_atomic(e),
            Face::W(w) => w.entities().delete(e),
        }
    }
    /// The list of killed entities, where the interface gives one.
    fn merge(&mut self, buf: &mut Vec<Entity>) -> bool {
        match self {
            Face::A(a) => {
                a.merge_atomic(buf);
                true
            }
            Face::W(w) => {
                w.merge();
                false
            }
        }
    }
    fn is_alive(&self, e: Entity) -> bool {
        match self {
            Face::A(a) => a.is_alive(e),
            Face::W(w) => w.entities().is_alive(e),
        }
    }
    fn entity(&self, i: Index) -> Option<Entity> {
        match self {
            Face::A(a) => a.entity(i),
            Face::W(w) => w.entities().entity(i),
        }
    }
    fn live_bits(&self) -> Vec<Index> {
        match self {
            Face::A(a) => a.live_bitset().iter().collect(),
            Face::W(w) => w.entities().live_bitset().iter().collect(),
        }
    }
    fn live_contains(&self, i: Index) -> bool {
        match self {
            Face::A(a) => a.live_bitset().contains(i),
            Face::W(w) => w.entities().live_bitset().contains(i),
        }
    }
    fn joined(&self) -> Vec<Entity> {
        match self {
            Face::A(a) => a.join().collect(),
            Face::W(w) => (&w.entities()).join().collect(),
        }
    }
    fn count(&self) -> Index {
        match self {
            Face::A(a) => a.max_entity_count(),
            Face::W(w) => w.entities().max_entity_count(),
        }
    }
}

#[derive(Clone, Copy, Debug)]
struct Occ {
    e: Entity,
    pending: bool,
    raised: bool,
}

struct Sim {
    a: Face,
    f: Focus,
    occ: BTreeMap<Index, Occ>,
    free: BTreeSet<Index>,
    fresh: Index,
    peak: usize,
    /// Every handle ever created here.
    ever: HashSet<Entity>,
    last_gen: HashMap<Index, u32>,
    /// Some dead handles, of all ages.
    dead: Vec<Entity>,
    buf: Vec<Entity>,
}

impl Sim {
    fn new(f: Focus, world: bool) -> Sim {
        Sim {
            a: Face::new(world),
            f,
            occ: BTreeMap::new(),
            free: BTreeSet::new(),
            fresh: 0,
            peak: 0,
            ever: HashSet::new(),
            last_gen: HashMap::new(),
            dead: Vec::new(),
            buf: Vec::new(),
        }
    }

    fn alive(&self, e: Entity) -> bool {
        self.occ.get(&e.index()).map(|o| o.e == e).unwrap_or(false)
    }

    fn created(&mut self, c: &mut Case, e: Entity, atomic: bool) -> Res {
        c.op(if atomic { "allocate_atomic" } else { "allocate" }, e.index() as u64, e.generation() as u64);
        c.count("creations", 1);
        c.max("largest generation", e.generation() as u64);
        c.max("largest index", e.index() as u64);
        if self.f.unique {
            ensure!(e.generation() != 0, "created {e:?} with generation zero");
            ensure!(self.ever.insert(e), "the handle {e:?} was returned by an earlier creation");
            if let Some(g) = self.last_gen.insert(e.index(), e.generation()) {
                c.count("reuses", 1);
                ensure!(
                    e.generation() > g,
                    "index {} was reused with generation {} after generation {g}",
                    e.index(),
                    e.generation()
                );
            }
        }
        if self.f.alive || self.f.merge {
            if let Some(o) = self.occ.get(&e.index()) {
                return Err(format!("created {e:?} at the index of the live entity {:?}", o.e));
            }
            ensure!(self.a.is_alive(e), "{e:?} is not alive right after its creation");
            ensure_eq!(self.a.entity(e.index()), Some(e), "lookup of the index of a new entity");
            ensure!(self.a.live_contains(e.index()), "{e:?} is not in the live set right after its creation");
        }
        if self.f.reuse {
            if self.free.is_empty() {
                ensure_eq!(e.index(), self.fresh, "no index is free, so the next new index is due");
            } else {
                c.count("reuses", 1);
                ensure!(
                    self.free.contains(&e.index()),
                    "creation returned index {} although the freed indexes {:?} are available (next new index {})",
                    e.index(),
                    self.free.iter().take(8).collect::<Vec<_>>(),
                    self.fresh
                );
            }
        }
        self.free.remove(&e.index());
        self.fresh = self.fresh.max(e.index().saturating_add(1));
        self.occ.insert(
            e.index(),
            Occ {
                e,
                pending: false,
                raised: atomic,
            },
        );
        self.peak = self.peak.max(self.occ.len());
        if self.f.reuse {
            self.check_count()?;
        }
        Ok(())
    }

    fn check_count(&self) -> Res {
        ensure_eq!(
            self.a.count() as usize,
            self.peak,
            "the maximum entity count against the largest number of entities alive at once"
        );
        Ok(())
    }

    fn died(&mut self, c: &mut Case, e: Entity) {
        if self.alive(e) {
            self.occ.remove(&e.index());
            self.free.insert(e.index());
        }
        if self.dead.len() < 300 {
            self.dead.push(e);
        } else {
            let k = c.rng.idx(300);
            self.dead[k] = e;
        }
        c.count("deaths", 1);
    }

    fn allocate(&mut self, c: &mut Case) -> Res {
        let e = self.a.allocate();
        self.created(c, e, false)
    }

    fn allocate_atomic(&mut self, c: &mut Case) -> Res {
        let e = self.a.allocate_atomic();
        self.created(c, e, true)
    }

    fn kill(&mut self, c: &mut Case, e: Entity) -> Res {
        let expect = self.alive(e);
        if self.occ.get(&e.index()).map(|o| o.raised).unwrap_or(false) {
            c.count("kills of unmerged atomic entities", expect as u64);
        }
        let pending = self.occ.get(&e.index()).map(|o| o.pending).unwrap_or(false);
        let got = self.a.kill(e).is_ok();
        c.op(if expect { "kill" } else { "kill dead" }, e.index() as u64, e.generation() as u64);
        if self.f.alive {
            ensure!(got == expect, "kill({e:?}) returned ok = {got} for an entity that is alive = {expect}");
        }
        if expect {
            c.count("immediate kills of entities with a pending request", pending as u64);
        } else {
            c.count("refused kills through dead or foreign handles", 1);
        }
        if got && expect {
            self.died(c, e);
        }
        Ok(())
    }

    fn kill_atomic(&mut self, c: &mut Case, e: Entity) -> Res {
        let expect = self.alive(e);
        let got = self.a.kill_atomic(e).is_ok();
        c.op(
            if expect { "kill_atomic" } else { "kill_atomic dead" },
            e.index() as u64,
            e.generation() as u64,
        );
        if self.f.alive {
            ensure!(got == expect, "kill_atomic({e:?}) returned ok = {got} for an entity that is alive = {expect}");
        }
        if expect && got {
            let o = self.occ.get_mut(&e.index()).unwrap();
            c.count("repeated kill requests", o.pending as u64);
            o.pending = true;
        } else {
            c.count("refused kill requests", 1);
        }
        Ok(())
    }

    fn merge(&mut self, c: &mut Case) -> Res {
        let mut expected: Vec<Entity> = self.occ.values().filter(|o| o.pending).map(|o| o.e).collect();
        let mut buf = std::mem::take(&mut self.buf);
        // The list is documented to be cleared.
        if c.rng.chance(1, 4) {
            buf.extend(self.dead.iter().take(3));
            buf.extend(self.occ.values().map(|o| o.e).take(2));
        }
        let listed = self.a.merge(&mut buf);
        c.op("merge", expected.len() as u64, listed as u64);
        c.count("merges", 1);
        c.count("merged kills", expected.len() as u64);
        if listed {
            if self.f.merge {
                let mut got = buf.clone();
                got.sort();
                expected.sort();
                ensure_eq!(got, expected, "entities reported killed by the merge, against the pending requests");
            }
        } else {
            buf.clear();
            buf.extend(expected);
        }
        for o in self.occ.values_mut() {
            o.raised = false;
        }
        for e in &buf {
            self.died(c, *e);
        }
        // Off focus, follow what the library says.
        if !(self.f.alive || self.f.merge) {
            for o in self.occ.values_mut() {
                o.pending = false;
            }
        }
        self.buf = buf;
        Ok(())
    }

    /// All four views of the live set, against the model.
    fn check_views(&self, c: &mut Case, probes: &[Entity]) -> Res {
        if !(self.f.alive || self.f.merge) {
            return Ok(());
        }
        c.count("full comparisons of the views", 1);
        let model: Vec<Index> = self.occ.keys().copied().collect();
        ensure_eq!(self.a.live_bits(), model, "the live set");
        let model: Vec<Entity> = self.occ.values().map(|o| o.e).collect();
        ensure_eq!(self.a.joined(), model, "iteration over the live entities");
        for e in &model {
            ensure!(self.a.is_alive(*e), "{e:?} should be alive");
            ensure_eq!(self.a.entity(e.index()), Some(*e), "lookup of index {}", e.index());
        }
        for e in &self.dead {
            ensure!(!self.a.is_alive(*e), "the dead {e:?} is reported alive");
            c.count("dead handles queried", 1);
        }
        for e in probes {
            ensure_eq!(self.a.is_alive(*e), self.alive(*e), "liveness of the foreign {e:?}");
        }
        for i in (0..self.fresh + 3).step_by(1 + self.fresh as usize / 200).chain(pats::EDGES.iter().copied()) {
            ensure_eq!(self.a.entity(i), self.occ.get(&i).map(|o| o.e), "lookup of index {i}");
            ensure_eq!(self.a.live_contains(i), self.occ.contains_key(&i), "live set membership of index {i}");
        }
        Ok(())
    }

    fn pick(&self, rng: &mut Rng, foreign: &[Entity]) -> Option<Entity> {
        let pick_live = |rng: &mut Rng, f: &dyn Fn(&Occ) -> bool| -> Option<Entity> {
            let n = self.occ.len();
            if n == 0 {
                return None;
            }
            if n <= 64 {
                let v: Vec<&Occ> = self.occ.values().filter(|o| f(o)).collect();
                if v.is_empty() {
                    return None;
                }
                return Some(rng.pick(&v).e);
            }
            let from = rng.below(self.fresh as u64) as u32;
            self.occ
                .range(from..)
                .take(100)
                .chain(self.occ.iter().take(100))
                .map(|(_, o)| o)
                .find(|o| f(o))
                .map(|o| o.e)
        };
        match rng.below(20) {
            0..=7 => pick_live(rng, &|_| true),
            8..=9 => pick_live(rng, &|o| o.pending),
            10..=12 => pick_live(rng, &|o| o.raised),
            13..=14 if !self.dead.is_empty() => Some(self.dead[self.dead.len() - 1 - rng.idx(self.dead.len().min(4))]),
            15..=17 if !self.dead.is_empty() => Some(*rng.pick(&self.dead)),
            18..=19 if !foreign.is_empty() => Some(*rng.pick(foreign)),
            _ => pick_live(rng, &|_| true),
        }
    }
}

/// Handles of another allocator, with all sorts of generations.
fn foreign(rng: &mut Rng) -> Vec<Entity> {
    let mut a = Allocator::new();
    let n = 1 + rng.idx(12);
    let mut live = Vec::new();
    let mut all = Vec::new();
    for _ in 0..rng.range(5, 60) {
        if live.len() < n && rng.chance(2, 3) {
            let e = a.allocate();
            live.push(e);
            all.push(e);
        } else if !live.is_empty() {
            let k = rng.idx(live.len());
            let e = live.swap_remove(k);
            let _ = a.kill(e);
        }
    }
    all
}

fn history(c: &mut Case, f: Focus, max_alive: usize, ops: u64, world: bool, check_every: u64) -> Res {
    let mut s = Sim::new(f, world);
    let other = foreign(&mut c.rng);
    let target = 1 + c.rng.idx(max_alive);
    // Per-case mixture of the operations.
    let w: Vec<u32> = (0..7).map(|_| [0, 1, 2, 4, 8][c.rng.idx(5)]).collect();
    let w = [w[0] + 1, w[1] + 1, w[2] + 1, w[3] + 1, w[4] + 1, (w[5] + 2) / 3, (w[6] + 2) / 3];
    for step in 0..ops {
        let full = s.occ.len() >= target;
        let k = match c.rng.weighted(&w) {
            0 | 1 if full && c.rng.chance(3, 4) => 2 + c.rng.idx(2),
            k => k,
        };
        match k {
            0 => s.allocate(c)?,
            1 => s.allocate_atomic(c)?,
            2 => {
                if let Some(e) = s.pick(&mut c.rng, &other) {
                    s.kill(c, e)?
                }
            }
            3 => {
                if let Some(e) = s.pick(&mut c.rng, &other) {
                    s.kill_atomic(c, e)?
                }
            }
            4 => s.merge(c)?,
            5 => {
                // A burst of creations.
                for _ in 0..c.rng.range(1, 2 * target as u64).min(70) {
                    if c.rng.bool() {
                        s.allocate(c)?
                    } else {
                        s.allocate_atomic(c)?
                    }
                }
            }
            _ => {
                // Get rid of most of the entities.
                let all: Vec<Entity> = s.occ.values().map(|o| o.e).collect();
                for e in all {
                    if c.rng.chance(3, 4) {
                        if c.rng.bool() {
                            s.kill(c, e)?
                        } else {
                            s.kill_atomic(c, e)?
                        }
                    }
                }
            }
        }
        if step % check_every == 0 {
            s.check_views(c, &other)?;
        }
    }
    s.check_views(c, &other)?;
    s.merge(c)?;
    s.check_views(c, &other)?;
    if f.reuse {
        s.check_count()?;
    }
    c.max("largest number alive", s.peak as u64);
    c.nontrivial = s.peak >= 1 && !s.dead.is_empty();
    Ok(())
}

/// Bulk phases across the word, layer and range boundaries of the bit sets.
fn bulk(c: &mut Case, f: Focus, n: u64) -> Res {
    let world = c.rng.chance(1, 3);
    let mut s = Sim::new(f, world);
    let n = n + c.rng.below(300);
    let mode = c.rng.below(3);
    for _ in 0..n {
        match mode {
            0 => s.allocate(c)?,
            1 => s.allocate_atomic(c)?,
            _ if c.rng.bool() => s.allocate(c)?,
            _ => s.allocate_atomic(c)?,
        }
    }
    s.check_views(c, &[])?;
    for round in 0..3 {
        let all: Vec<Entity> = s.occ.values().map(|o| o.e).collect();
        let style = c.rng.below(4);
        for (k, e) in all.iter().enumerate() {
            let hit = match style {
                0 => true,
                1 => k % 64 != 5,
                2 => k % 4096 >= 17,
                _ => c.rng.chance(1, 3),
            };
            if hit {
                if round == 1 || c.rng.chance(1, 3) {
                    s.kill(c, *e)?
                } else {
                    s.kill_atomic(c, *e)?
                }
            }
        }
        s.check_views(c, &all[..all.len().min(200)])?;
        s.merge(c)?;
        s.check_views(c, &all[..all.len().min(200)])?;
        let refill = c.rng.below(n + 200);
        for _ in 0..refill {
            if c.rng.bool() {
                s.allocate(c)?
            } else {
                s.allocate_atomic(c)?
            }
        }
        s.check_views(c, &[])?;
    }
    c.nontrivial = true;
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Concurrency

#[derive(Default)]
struct Log {
    created: Vec<Entity>,
    deleted: Vec<Entity>,
    refused: Vec<Entity>,
    /// Entities seen by iterations, with own creations so far.
    seen: Vec<(Vec<Entity>, usize)>,
    seen_bits: Vec<(Vec<Index>, usize)>,
    errors: Vec<String>,
    queries: u64,
}

fn spin(rng: &mut Rng) {
    match rng.below(12) {
        0 => std::thread::yield_now(),
        1..=4 => {
            for _ in 0..rng.below(60) {
                std::hint::spin_loop()
            }
        }
        _ => {}
    }
}

fn concurrent(c: &mut Case, f: Focus) -> Res {
    let world = c.rng.chance(1, 3);
    let mut s = Sim::new(
        Focus {
            conc: false,
            ..f
        },
        world,
    );
    let threads = c.rng.range(2, 6) as usize;
    // A starting state with some free indexes and some live entities.
    let prep = c.rng.below(40);
    for _ in 0..prep {
        match c.rng.below(5) {
            0 | 1 => s.allocate(c)?,
            2 => s.allocate_atomic(c)?,
            3 => {
                if let Some(e) = s.pick(&mut c.rng, &[]) {
                    s.kill(c, e)?
                }
            }
            _ => s.merge(c)?,
        }
    }
    if c.rng.chance(1, 8) {
        // Start close below a layer boundary.
        while s.fresh % 4096 < 4090 {
            s.allocate(c)?;
        }
    }
    for round in 0..3 {
        let before: Vec<Entity> = s.occ.values().map(|o| o.e).collect();
        let stale = s.dead.clone();
        let count0 = s.a.count();
        let created_total = AtomicU64::new(0);
        let barrier = Barrier::new(threads);
        let rngs: Vec<Rng> = (0..threads).map(|_| c.rng.fork()).collect();
        let per = c.rng.range(1, 24);
        let shared: Mutex<Vec<Entity>> = Mutex::new(Vec::new());
        let a = &s.a;
        let logs: Vec<Log> = std::thread::scope(|sc| {
            let hs: Vec<_> = rngs
                .into_iter()
                .map(|mut rng| {
                    let (before, stale, barrier, shared, created_total) = (&before, &stale, &barrier, &shared, &created_total);
                    sc.spawn(move || {
                        let mut l = Log::default();
                        barrier.wait();
                        for _ in 0..per {
                            spin(&mut rng);
                            match rng.below(16) {
                                0..=5 => {
                                    let e = a.allocate_atomic();
                                    created_total.fetch_add(1, Ordering::Relaxed);
                                    if !a.is_alive(e) {
                                        l.errors.push(format!("{e:?} not alive for its creator"));
                                    }
                                    if a.entity(e.index()) != Some(e) {
                                        l.errors.push(format!(
                                            "lookup of the index of the new {e:?} gives {:?}",
                                            a.entity(e.index())
                                        ));
                                    }
                                    if !a.live_contains(e.index()) {
                                        l.errors.push(format!("{e:?} not in the live set for its creator"));
                                    }
                                    l.created.push(e);
                                    if rng.chance(1, 3) {
                                        shared.lock().unwrap().push(e);
                                    }
                                }
                                6..=9 => {
                                    // Ask for the deletion of an entity of any origin.
                                    let (e, alive) = match rng.below(6) {
                                        0 | 1 if !before.is_empty() => (*rng.pick(before), true),
                                        2 if !l.created.is_empty() => (*rng.pick(&l.created), true),
                                        3 => {
                                            let sh = shared.lock().unwrap();
                                            if sh.is_empty() {
                                                continue;
                                            }
                                            (*rng.pick(&sh), true)
                                        }
                                        _ if !stale.is_empty() => (*rng.pick(stale), false),
                                        _ => continue,
                                    };
                                    match (a.kill_atomic(e).is_ok(), alive) {
                                        (true, true) => l.deleted.push(e),
                                        (false, false) => l.refused.push(e),
                                        (ok, _) => l.errors.push(format!(
                                            "deletion request for {e:?} (alive = {alive}) returned ok = {ok}"
                                        )),
                                    }
                                }
                                10..=11 => {
                                    let own = l.created.len();
                                    l.seen.push((a.joined(), own));
                                }
                                12 => {
                                    let own = l.created.len();
                                    l.seen_bits.push((a.live_bits(), own));
                                }
                                13 => {
                                    for e in before.iter().chain(l.created.iter()) {
                                        l.queries += 1;
                                        if !a.is_alive(*e) || a.entity(e.index()) != Some(*e) {
                                            l.errors.push(format!("{e:?} is not alive although nothing was merged"));
                                        }
                                    }
                                }
                                14 => {
                                    for e in stale.iter().take(8) {
                                        l.queries += 1;
                                        if a.is_alive(*e) {
                                            l.errors.push(format!("the dead {e:?} is alive"));
                                        }
                                    }
                                }
                                _ => {
                                    let n = a.count();
                                    if n < count0 || l.created.iter().any(|e| e.index() >= n) {
                                        l.errors.push(format!("maximum entity count {n} does not cover the created entities"));
                                    }
                                }
                            }
                        }
                        l
                    })
                })
                .collect();
            hs.into_iter()
                .map(|h| h.join().map_err(|_| "a thread panicked".to_string()))
                .collect::<Result<Vec<_>, _>>()
        })
        .map_err(|e| format!("{e} during concurrent operations"))?;

        // Everything any thread saw.
        let all_created: Vec<Entity> = logs.iter().flat_map(|l| l.created.iter().copied()).collect();
        let created_set: HashSet<Entity> = all_created.iter().copied().collect();
        let created_idx: HashSet<Index> = all_created.iter().map(|e| e.index()).collect();
        let before_set: HashSet<Entity> = before.iter().copied().collect();
        c.count("concurrent creations", all_created.len() as u64);
        c.count("concurrent rounds", 1);
        for l in &logs {
            for e in &l.created {
                c.mix(e.index() as u64);
            }
            c.mix(77);
        }
        if f.conc {
            for l in &logs {
                if let Some(e) = l.errors.first() {
                    return Err(format!("round {round}: {e}"));
                }
                c.count("concurrent queries", l.queries);
                for (seen, own) in &l.seen {
                    c.count("concurrent iterations", 1);
                    let set: HashSet<Entity> = seen.iter().copied().collect();
                    ensure_eq!(set.len(), seen.len(), "an iteration reported an entity twice");
                    for e in before.iter().chain(&l.created[..*own]) {
                        ensure!(set.contains(e), "an iteration missed {e:?}, alive before it began");
                    }
                    for e in seen {
                        ensure!(
                            before_set.contains(e) || created_set.contains(e),
                            "an iteration reported {e:?}, which was neither alive nor created meanwhile"
                        );
                    }
                }
                for (seen, own) in &l.seen_bits {
                    c.count("concurrent iterations", 1);
                    let set: HashSet<Index> = seen.iter().copied().collect();
                    for e in before.iter().chain(&l.created[..*own]) {
                        ensure!(set.contains(&e.index()), "the live set missed {e:?}, alive before");
                    }
                    for i in seen {
                        ensure!(
                            s.occ.contains_key(i) || created_idx.contains(i),
                            "the live set contains index {i}, which was neither alive nor created meanwhile"
                        );
                    }
                }
            }
            ensure_eq!(
                created_idx.len(),
                all_created.len(),
                "distinct indexes among concurrently created entities {all_created:?}"
            );
            for e in &all_created {
                ensure!(!s.occ.contains_key(&e.index()), "created {e:?} on top of a live entity");
            }
        }
        if f.reuse {
            let mut fresh: Vec<Index> = all_created.iter().map(|e| e.index()).filter(|i| !s.free.contains(i)).collect();
            fresh.sort();
            let want = all_created.len().saturating_sub(s.free.len());
            let due: Vec<Index> = (s.fresh..s.fresh + want as Index).collect();
            ensure_eq!(fresh, due, "new indexes issued by {} creations with {} freed ones available", all_created.len(), s.free.len());
        }
        // Bring the model up to date; `created` checks uniqueness and so on as the focus asks for.
        let reuse = std::mem::replace(&mut s.f.reuse, false);
        for e in &all_created {
            s.created(c, *e, true)?;
        }
        s.f.reuse = reuse;
        if f.reuse {
            s.check_count()?;
        }
        let mut wanted: BTreeSet<Entity> = BTreeSet::new();
        for l in &logs {
            for e in &l.deleted {
                wanted.insert(*e);
                if let Some(o) = s.occ.get_mut(&e.index()) {
                    o.pending = true;
                }
            }
        }
        c.count("concurrent deletion requests", wanted.len() as u64);
        if f.conc {
            s.f.alive = true;
            s.f.merge = true;
            s.check_views(c, &[])?;
        }
        // Requests accepted in earlier, unmerged rounds are still pending too: the merge oracle uses the model.
        if round < 2 && c.rng.chance(1, 3) {
            continue;
        }
        s.merge(c)?;
        s.check_views(c, &[])?;
        if !f.conc {
            continue;
        }
        s.f.alive = f.alive;
        s.f.merge = f.merge;
    }
    for _ in 0..4 {
        s.allocate(c)?;
    }
    c.nontrivial = true;
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Limits

/// Spend nearly all generations of one index, then a random history over the last ones.
fn generations(c: &mut Case, f: Focus, thorough: bool) -> Res {
    let mut s = Sim::new(f, c.no % 8 == 7);
    // What the tail does at the end of the range depends on the case number; the start is cheap cycles.
    let others = c.rng.below(5);
    for _ in 0..others {
        s.allocate(c)?;
    }
    let keep: Vec<Entity> = s.occ.values().map(|o| o.e).collect();
    let tail = c.rng.range(3, 24) as u32;
    let limit = i32::MAX as u32;
    let mut samples: Vec<Entity> = Vec::new();
    let first = s.a.allocate();
    let ix = first.index();
    let mut last = first;
    // Atomic creations are five times slower: only now and then in the quick tier.
    let atomic = c.no % 2 == 1;
    let atomic_mask = if !atomic { u32::MAX } else if thorough { 0 } else { 0xff };
    {
        let mut next_sample = 1u32;
        let a = &mut s.a;
        while last.generation() < limit - tail {
            if a.kill(last).is_err() {
                return Err(format!("kill of the live {last:?} refused"));
            }
            let e = if last.generation() & atomic_mask == 0 { a.allocate_atomic() } else { a.allocate() };
            if e.index() != ix {
                if f.reuse {
                    return Err(format!("index {ix} is free but index {} was issued", e.index()));
                }
                return Ok(());
            }
            if e.generation() <= last.generation() {
                return Err(format!("generation did not grow: {last:?} then {e:?}"));
            }
            if e.generation() >= next_sample {
                samples.push(last);
                next_sample = next_sample.saturating_mul(2);
            }
            last = e;
        }
    }
    c.op("spent generations of index", ix as u64, last.generation() as u64);
    c.count("generations spent", last.generation() as u64);
    s.dead.extend(samples);
    s.occ.insert(ix, Occ { e: last, pending: false, raised: false });
    s.peak = s.peak.max(s.occ.len());
    s.fresh = s.fresh.max(ix + 1);
    s.last_gen.insert(ix, last.generation());
    s.ever.insert(last);
    // The tail: keep killing and creating around the exhausted index until creations have failed a few times.
    let mut failures = 0;
    let mut steps = 0;
    while failures < 4 && steps < 4000 {
        steps += 1;
        let on_index = s.occ.get(&ix).map(|o| o.e);
        match c.rng.below(8) {
            0..=2 => {
                let atomic = c.rng.bool();
                let before = s.a.count();
                let r = catch(|| if atomic { s.a.allocate_atomic() } else { s.a.allocate() });
                match r {
                    Ok(e) => {
                        // A creation that succeeds must be an ordinary one.
                        s.f.unique = true;
                        s.f.alive = true;
                        let reuse = std::mem::replace(&mut s.f.reuse, false);
                        s.created(c, e, atomic)?;
                        s.f.reuse = reuse;
                        ensure!(
                            e.generation() <= limit,
                            "created {e:?} beyond the generation range"
                        );
                    }
                    Err(p) => {
                        c.op("creation failed", atomic as u64, 0);
                        let spent = s.last_gen.get(&ix).copied().unwrap_or(0) == limit;
                        ensure!(
                            spent && on_index.is_none(),
                            "creation panicked ({}) although generations are left",
                            p.msg
                        );
                        ensure_eq!(s.a.count(), before, "the maximum entity count after a failed creation");
                        failures += 1;
                        c.count("creations refused for lack of generations", 1);
                        s.free.remove(&ix);
                    }
                }
            }
            3..=4 => {
                if let Some(e) = on_index {
                    s.kill(c, e)?
                }
            }
            5 => {
                if let Some(e) = on_index {
                    s.kill_atomic(c, e)?;
                    s.merge(c)?
                }
            }
            6 => s.merge(c)?,
            _ => {
                if s.last_gen.get(&ix) == Some(&limit) && on_index.is_none() {
                    failures += (steps > 1000) as u64;
                }
            }
        }
        s.f.alive = true;
        s.check_views(c, &keep)?;
    }
    s.merge(c)?;
    s.check_views(c, &keep)?;
    for _ in 0..3 {
        s.f.reuse = false;
        s.allocate(c)?;
        s.allocate_atomic(c)?;
    }
    s.merge(c)?;
    s.check_views(c, &keep)?;
    c.nontrivial = failures > 0;
    Ok(())
}

/// Use up all indexes.
fn indexes(c: &mut Case) -> Res {
    const N: u32 = pats::LIMIT;
    let mode = c.no % 4;
    let mut a = Face::new(mode == 3);
    c.op("fill the index space, mode", mode, 0);
    let fill = |a: &mut Face| -> Result<u64, String> {
        let mut made = 0u64;
        match mode {
            0 => {
                while (made as u32) < N {
                    let e = a.allocate();
                    ensure_eq!((e.index() as u64, e.generation()), (made, 1), "creation number {made}");
                    made += 1;
                }
            }
            2 => {
                let a = &*a;
                let per = N as u64 / 4;
                let (sum, bad) = (AtomicU64::new(0), AtomicBool::new(false));
                std::thread::scope(|sc| {
                    for _ in 0..4 {
                        sc.spawn(|| {
                            let mut own = 0u64;
                            for _ in 0..per {
                                match catch(|| a.allocate_atomic()) {
                                    Ok(e) if e.generation() == 1 => own += e.index() as u64,
                                    _ => bad.store(true, Ordering::Relaxed),
                                }
                            }
                            sum.fetch_add(own, Ordering::Relaxed);
                        });
                    }
                });
                ensure!(!bad.load(Ordering::Relaxed), "a creation failed before the index space was used up");
                ensure_eq!(sum.load(Ordering::Relaxed), N as u64 * (N as u64 - 1) / 2, "sum of all created indexes");
                made = per * 4;
            }
            _ => {
                while (made as u32) < N {
                    let e = if made % 3 == 0 && mode == 3 { a.allocate() } else { a.allocate_atomic() };
                    ensure_eq!((e.index() as u64, e.generation()), (made, 1), "creation number {made}");
                    made += 1;
                }
            }
        }
        Ok(made)
    };
    let made = fill(&mut a)?;
    c.count("creations", made);
    let views = |a: &Face, dead: &BTreeSet<Index>, gens: &BTreeMap<Index, u32>, c: &mut Case| -> Res {
        ensure_eq!(a.count(), N, "the maximum entity count of a full allocator");
        // Iteration must show every live entity.
        let mut expect = 0u32;
        let mut n = 0u64;
        let check = |e: Entity, expect: &mut u32| -> Res {
            while dead.contains(expect) {
                *expect += 1;
            }
            let g = gens.get(expect).copied().unwrap_or(1);
            ensure_eq!((e.index(), e.generation()), (*expect, g), "iteration over the live entities");
            *expect += 1;
            Ok(())
        };
        match a {
            Face::A(x) => {
                for e in x.join() {
                    check(e, &mut expect)?;
                    n += 1;
                }
            }
            Face::W(w) => {
                for e in (&w.entities()).join() {
                    check(e, &mut expect)?;
                    n += 1;
                }
            }
        }
        ensure_eq!(n, N as u64 - dead.len() as u64, "number of live entities shown by iteration");
        c.count("live entities compared", n);
        for i in pats::EDGES.iter().copied() {
            ensure_eq!(a.entity(i).is_some(), !dead.contains(&i), "lookup of index {i}");
            ensure_eq!(a.live_contains(i), !dead.contains(&i), "live set membership of {i}");
        }
        for i in [N, N + 1, N * 2, u32::MAX - 1, u32::MAX] {
            ensure_eq!(a.entity(i), None, "lookup of the out-of-range index {i}");
        }
        Ok(())
    };
    let mut dead = BTreeSet::new();
    let mut gens = BTreeMap::new();
    views(&a, &dead, &gens, c)?;
    for round in 0..3 {
        // Every further creation must fail, again and again, from any number of threads.
        for k in 0..6 {
            let r = catch(|| if (k + round) % 2 == 0 { a.allocate() } else { a.allocate_atomic() });
            c.op("creation when full", k, r.is_ok() as u64);
            if let Ok(e) = r {
                return Err(format!("a creation succeeded with {e:?} although the index space is used up"));
            }
            c.count("creations refused for lack of indexes", 1);
        }
        let ok = AtomicU64::new(0);
        std::thread::scope(|sc| {
            for _ in 0..4 {
                sc.spawn(|| {
                    for _ in 0..4 {
                        if catch(|| a.allocate_atomic()).is_ok() {
                            ok.fetch_add(1, Ordering::Relaxed);
                        }
                    }
                });
            }
        });
        c.count("creations refused for lack of indexes", 16);
        ensure_eq!(ok.load(Ordering::Relaxed), 0, "concurrent creations that succeeded although the index space is used up");
        if round == 1 {
            let mut buf = Vec::new();
            a.merge(&mut buf);
        }
        views(&a, &dead, &gens, c)?;
        // Free some and fill up again.
        let mut freed = Vec::new();
        for _ in 0..5 {
            let i = if c.rng.bool() { N - 1 - c.rng.below(3) as u32 } else { c.rng.below(N as u64) as u32 };
            if let Some(e) = a.entity(i) {
                if c.rng.bool() {
                    ensure!(a.kill(e).is_ok(), "kill of the live {e:?} refused");
                } else {
                    ensure!(a.kill_atomic(e).is_ok(), "kill request for the live {e:?} refused");
                    let mut buf = Vec::new();
                    a.merge(&mut buf);
                }
                freed.push(e);
                dead.insert(i);
            } else {
                ensure!(dead.contains(&i), "no live entity at {i}");
            }
        }
        views(&a, &dead, &gens, c)?;
        for k in 0..freed.len() {
            let e = if k % 2 == 0 { a.allocate() } else { a.allocate_atomic() };
            let old = freed.iter().find(|f| f.index() == e.index());
            ensure!(old.is_some() && dead.remove(&e.index()), "created {e:?} which is not at a freed index");
            ensure!(e.generation() > old.unwrap().generation(), "created {e:?} in place of {old:?}");
            gens.insert(e.index(), e.generation());
            c.count("creations", 1);
        }
        views(&a, &dead, &gens, c)?;
    }
    // The last index is as usable as any other.
    if let Face::W(w) = &mut a {
        w.insert_component::<CompB>();
        w.insert_component::<CompH>();
        let e = w.entities().entity(N - 1).ok_or("no entity at the last index")?;
        ensure!(
            w.write_component::<CompB>().insert(e, CompB(7)).is_ok(),
            "inserting a component for the last entity was refused"
        );
        ensure!(
            w.write_component::<CompH>().insert(e, CompH(8)).is_ok(),
            "inserting a component for the last entity was refused"
        );
        let (b, h, ents) = (w.read_component::<CompB>(), w.read_component::<CompH>(), w.entities());
        let got: Vec<(Entity, u8, u64)> = (&ents, &b, &h).join().map(|(e, b, h)| (e, b.0, h.0)).collect();
        ensure_eq!(got, vec![(e, 7u8, 8u64)], "join over the components of the last entity");
    }
    c.nontrivial = true;
    Ok(())
}

#[derive(Debug, PartialEq)]
struct CompB(u8);
#[derive(Debug, PartialEq)]
struct CompH(u64);
impl Component for CompB {
    type Storage = Flagged<VecStorage<CompB>>;
}
impl Component for CompH {
    type Storage = HashMapStorage<CompH>;
}

/// Storage operations at and beyond the end of the range.
fn storage_range<S>(c: &mut Case, name: &'static str, mark: impl Fn(&mut MaskedStorage<S>, Index) -> Option<Res>) -> Res
where
    S: RawStorage<Item = u32> + Default,
{
    const N: u32 = pats::LIMIT;
    c.mix_str(name);
    let mut s = MaskedStorage::<S>::default();
    let mut model: BTreeMap<u32, u32> = BTreeMap::new();
    let bad = [N, N + 1, N + 63, N + 64, 2 * N - 1, 2 * N, 1 << 31, u32::MAX - 1, u32::MAX];
    let good = [0, 1, 63, 64, 4095, 4096, 262_143, N - 2, N - 1];
    let mut next = 1u32;
    for step in 0..60u64 {
        next += 1;
        if c.rng.chance(2, 5) {
            let i = *c.rng.pick(&good);
            c.op("edit", i as u64, step);
            if c.rng.chance(2, 3) {
                let old = s.insert(i, next);
                ensure_eq!(old, model.insert(i, next), "{name}: value replaced at {i}");
            } else {
                ensure_eq!(s.remove(i), model.remove(&i), "{name}: value removed at {i}");
            }
        } else {
            let i = *c.rng.pick(&bad);
            let k = c.rng.below(8);
            c.op("out of range", i as u64, k);
            c.count("out-of-range operations", 1);
            match k {
                0 | 1 => {
                    let r = catch(|| s.insert(i, next));
                    ensure!(r.is_err(), "{name}: insertion at the out-of-range index {i} was not refused");
                }
                2 => {
                    let r = catch(|| *s.get_or_insert_with(i, || next));
                    ensure!(r.is_err(), "{name}: get_or_insert_with at the out-of-range index {i} was not refused");
                }
                3 => {
                    ensure!(s.get(i).is_none() && !s.contains(i), "{name}: something at the out-of-range index {i}");
                }
                4 => ensure!(s.get_mut(i).is_none(), "{name}: something mutable at the out-of-range index {i}"),
                5 => ensure!(s.get_guard(i).is_none(), "{name}: a guard at the out-of-range index {i}"),
                6 => {
                    let r = catch(|| s.remove(i));
                    if let Ok(Some(_)) = r {
                        return Err(format!("{name}: removed something at the out-of-range index {i}"));
                    }
                    ensure!(r.is_ok(), "{name}: removing at the out-of-range index {i} panicked, nothing is there");
                }
                _ => {
                    if let Some(r) = mark(&mut s, i) {
                        r?
                    }
                }
            }
        }
        // Unchanged (or changed as asked), and all of it visible to joins.
        let got: Vec<(u32, u32)> = (s.mask(), &s).join().map(|(i, v)| (i, *v)).collect();
        let want: Vec<(u32, u32)> = model.iter().map(|(a, b)| (*a, *b)).collect();
        ensure_eq!(got, want, "{name}: contents");
        for (i, v) in &model {
            ensure_eq!(s.get(*i), Some(v), "{name}: value at {i}");
        }
        for i in bad {
            ensure!(!s.contains(i) && s.get(i).is_none() && !s.mask().contains(i), "{name}: index {i} is occupied");
        }
    }
    c.nontrivial = true;
    Ok(())
}

fn flagged_mark<S>(s: &mut MaskedStorage<S>, i: Index) -> Option<Res>
where
    S: goggles::TrackedStorage<Item = u32>,
{
    let before: Vec<Index> = s.modified_indexes().iter().collect();
    s.set_track_modified(i % 2 == 0);
    let r = catch(|| s.mark_modified(i));
    let after: Vec<Index> = s.modified_indexes().iter().collect();
    let listed = s.modified().join().count();
    Some(if r.is_ok() {
        Err(format!("marking the out-of-range index {i} was not refused"))
    } else if before != after || listed != after.len() {
        Err(format!("a refused mark at {i} changed the modified set"))
    } else {
        Ok(())
    })
}

/// Random index arguments to the allocator's queries.
fn index_queries(c: &mut Case) -> Res {
    let f = Focus {
        alive: true,
        ..Focus::default()
    };
    let world = c.rng.bool();
    let mut s = Sim::new(f, world);
    for _ in 0..c.rng.below(200) {
        match c.rng.below(4) {
            0 | 1 => s.allocate(c)?,
            2 => s.allocate_atomic(c)?,
            _ => {
                if let Some(e) = s.pick(&mut c.rng, &[]) {
                    s.kill(c, e)?
                }
            }
        }
    }
    for k in 0..200u64 {
        let i = match c.rng.below(5) {
            0 => c.rng.below(300) as u32,
            1 => *c.rng.pick(pats::EDGES),
            2 => pats::LIMIT.wrapping_add(c.rng.below(130) as u32),
            3 => 1u32.checked_shl(c.rng.range(20, 31) as u32).unwrap().wrapping_sub(c.rng.below(3) as u32),
            _ => u32::MAX - c.rng.below(100) as u32,
        };
        c.op("lookup", i as u64, k);
        let got = catch(|| s.a.entity(i)).map_err(|p| format!("looking up index {i} panicked: {}", p.msg))?;
        ensure_eq!(got, s.occ.get(&i).map(|o| o.e), "lookup of index {i}");
    }
    c.nontrivial = true;
    Ok(())
}

fn main() {
    let opts = Opts::parse();
    let r = Runner::new(opts.clone());
    let id = opts.id.as_str();
    let f = match id {
        "C01" => Focus {
            unique: true,
            ..Focus::default()
        },
        "C02" => Focus {
            alive: true,
            ..Focus::default()
        },
        "C03" => Focus {
            merge: true,
            ..Focus::default()
        },
        "C04" => Focus {
            conc: true,
            ..Focus::default()
        },
        "C05" => Focus {
            reuse: true,
            ..Focus::default()
        },
        "C06" => Focus {
            limits: true,
            ..Focus::default()
        },
        _ => panic!("unknown property {id}"),
    };
    let t = opts.threads;
    // Billions of cheap operations: built for speed and run in a process of its own.
    if matches!(id, "C01" | "C06") && (opts.part == "long" || opts.only.is_some()) {
        r.set_case_limit(240);
        r.run(
            "generation-range",
            "2^31 creations on one index, then a random history over its last generations and beyond",
            opts.n(if id == "C06" { 6 } else { 4 }, 16),
            t,
            |c| generations(c, f, opts.thorough()),
        );
    }
    if opts.part == "long" {
        r.finish();
    }
    if matches!(id, "C01" | "C02" | "C03" | "C05") {
        r.run(
            "few-indexes",
            "random histories of creations, kills, kill requests and merges with at most 6 live entities (heavy index reuse), on an allocator or a world",
            opts.n(4000, 60_000),
            t,
            |c| {
                let w = c.rng.chance(1, 3);
                let ops = c.rng.range(20, 300);
                history(c, f, 6, ops, w, 1)
            },
        );
        r.run(
            "many-indexes",
            "random histories with up to 250 live entities",
            opts.n(800, 12_000),
            t,
            |c| {
                let w = c.rng.chance(1, 3);
                let ops = c.rng.range(100, 900);
                history(c, f, 250, ops, w, 7)
            },
        );
        r.run(
            "large-population",
            "bulk creation, killing, merging and refilling across word and layer boundaries of the bit sets (4096 and beyond)",
            opts.n(48, 400),
            t,
            |c| {
                let n = *c.rng.clone().pick(&[64, 4096, 8192, 20_000]);
                bulk(c, f, n)
            },
        );
        r.run(
            "huge-population",
            "the same across the top layer boundary (262144)",
            opts.n(3, 16),
            t,
            |c| bulk(c, f, 262_144),
        );
    }
    if matches!(id, "C01" | "C04" | "C05") {
        r.run(
            "threads",
            "2 to 6 threads create, request deletions, query and iterate through shared access, then a merge; non-trivial: every case, told apart by the indexes each thread got",
            opts.n(if id == "C04" { 6000 } else { 2500 }, if id == "C04" { 120_000 } else { 40_000 }),
            (t / 2).max(2),
            |c| concurrent(c, f),
        );
    }
    if matches!(id, "C06") {
        r.run(
            "index-queries",
            "lookups of arbitrary index numbers, in and out of range, in random allocators",
            opts.n(400, 6000),
            t,
            index_queries,
        );
        r.run(
            "storage-range",
            "storage operations at the last valid indexes and beyond the range, on every storage kind; contents compared after each",
            opts.n(160, 2400),
            t,
            |c| match c.no % 6 {
                0 => storage_range::<VecStorage<u32>>(c, "vector", |_, _| None),
                1 => storage_range::<DenseVecStorage<u32>>(c, "dense", |_, _| None),
                2 => storage_range::<HashMapStorage<u32>>(c, "hash map", |_, _| None),
                3 => storage_range::<Flagged<VecStorage<u32>>>(c, "tracked vector", flagged_mark),
                4 => storage_range::<Flagged<DenseVecStorage<u32>>>(c, "tracked dense", flagged_mark),
                _ => storage_range::<Flagged<HashMapStorage<u32>>>(c, "tracked hash map", flagged_mark),
            },
        );
        r.run(
            "index-space",
            "all 2^24 indexes in use, then more creations, frees and refills; every view compared",
            opts.n(4, 8),
            4,
            indexes,
        );
    }
    r.finish();
}
