// ---------------------------------------------------------------------------------------------
// C15–C17 again, with types of many shapes

/// A resource and component of any shape.
trait Shape: Component<Storage: Default + Send + Sync> + Send + Sync + Sized + 'static {
    fn make(n: u64) -> Self;
    /// What can be told from it: 0 where it holds nothing.
    fn show(&self) -> u64;
    fn keeps() -> bool {
        true
    }
}

macro_rules! shapes {
    ($($id:literal $t:ty, $storage:ident, $n:ident => $make:expr, $x:ident => $show:expr, $keeps:expr;)*) => {
        $(
            impl Component for $t {
                type Storage = shapes!(@ $storage $t);
            }
            impl Shape for $t {
                fn make($n: u64) -> Self {
                    $make
                }
                fn show(&self) -> u64 {
                    let $x = self;
                    $show
                }
                fn keeps() -> bool {
                    $keeps
                }
            }
        )*
        const SHAPES: &[fn() -> Ops] = &[$(ops::<$t>),*];
    };
    (@ vec $t:ty) => { VecStorage<$t> };
    (@ dense $t:ty) => { DenseVecStorage<$t> };
    (@ map $t:ty) => { HashMapStorage<$t> };
    (@ flagged $t:ty) => { Flagged<DenseVecStorage<$t>> };
}

struct Unit;
struct Unit2();
struct Phantom<T>(std::marker::PhantomData<fn() -> T>);
struct Marker<const N: usize>;
struct Of<T>(T);
#[repr(align(128))]
struct Aligned(u8);
#[repr(align(64))]
struct AlignedNothing;
#[allow(dead_code)]
enum Several {
    One,
    Two(u64),
    Three { a: u64, b: String },
}
mod other {
    /// Of the same name as the one outside.
    pub struct Unit;
    pub struct Of<T>(pub T);
}

shapes! {
    0 Unit, vec, _n => Unit, _x => 0, false;
    1 Unit2, dense, _n => Unit2(), _x => 0, false;
    2 other::Unit, map, _n => other::Unit, _x => 0, false;
    3 Phantom<u8>, vec, _n => Phantom(std::marker::PhantomData), _x => 0, false;
    4 Phantom<Phantom<u8>>, flagged, _n => Phantom(std::marker::PhantomData), _x => 0, false;
    5 Marker<0>, vec, _n => Marker, _x => 0, false;
    6 Marker<1>, vec, _n => Marker, _x => 0, false;
    7 Of<u8>, vec, n => Of(n as u8), x => x.0 as u64, true;
    8 Of<i8>, dense, n => Of(n as i8), x => x.0 as u8 as u64, true;
    9 other::Of<u8>, vec, n => other::Of(n as u8), x => x.0 as u64, true;
    10 Of<u64>, vec, n => Of(n), x => x.0, true;
    11 Of<(u64, u8)>, map, n => Of((n, 1)), x => x.0.0, true;
    12 Of<[u64; 200]>, vec, n => Of([n; 200]), x => x.0[199], true;
    13 Of<String>, dense, n => Of(n.to_string()), x => x.0.parse().unwrap(), true;
    14 Of<Vec<String>>, vec, n => Of(vec![n.to_string()]), x => x.0[0].parse().unwrap(), true;
    15 Of<Box<dyn Fn() -> u64 + Send + Sync>>, vec, n => Of(Box::new(move || n)), x => (x.0)(), true;
    16 Of<&'static str>, vec, n => Of(["0", "1", "2", "3"][n as usize % 4]), x => x.0.parse().unwrap(), true;
    17 Of<fn(u64) -> u64>, vec, n => Of(if n % 2 == 0 { |_| 0 } else { |_| 1 }), x => (x.0)(7), true;
    18 Of<Option<Box<u64>>>, flagged, n => Of((n != 0).then(|| Box::new(n))), x => x.0.as_ref().map_or(0, |b| **b), true;
    19 Of<Of<u64>>, vec, n => Of(Of(n)), x => x.0.0, true;
    20 Of<Unit>, vec, _n => Of(Unit), _x => 0, false;
    21 Of<()>, map, _n => Of(()), _x => 0, false;
    22 Aligned, dense, n => Aligned(n as u8), x => x.0 as u64, true;
    23 AlignedNothing, vec, _n => AlignedNothing, _x => 0, false;
    24 Several, vec, n => if n == 0 { Several::One } else { Several::Two(n) }, x => match x { Several::Two(n) => *n, _ => 0 }, true;
    25 Of<Arc<AtomicU64>>, vec, n => Of(Arc::new(AtomicU64::new(n))), x => x.0.load(Ordering::Relaxed), true;
    26 Of<Mutex<u64>>, vec, n => Of(Mutex::new(n)), x => *x.0.lock().unwrap(), true;
    27 Of<std::num::NonZeroU32>, vec, n => Of(std::num::NonZeroU32::new(n as u32 + 1).unwrap()), x => x.0.get() as u64 - 1, true;
    28 Of<Entity>, vec, n => Of(spare_entity(n)), x => x.0.index() as u64, true;
    29 Of<TypeIdOf>, vec, _n => Of(TypeIdOf(std::any::TypeId::of::<u8>())), x => (x.0.0 == std::any::TypeId::of::<u8>()) as u64, true;
}

struct TypeIdOf(std::any::TypeId);

/// Types that only their blocks tell apart: even their full names are the same.
macro_rules! twin {
    ($field:ty, $storage:ident, $n:ident => $make:expr, $x:ident => $show:expr, $keeps:expr) => {{
        struct Twin($field);
        impl Component for Twin {
            type Storage = shapes!(@ $storage Twin);
        }
        impl Shape for Twin {
            fn make($n: u64) -> Self {
                Twin($make)
            }
            fn show(&self) -> u64 {
                let $x = &self.0;
                $show
            }
            fn keeps() -> bool {
                $keeps
            }
        }
        ops::<Twin>
    }};
}

fn twins() -> [fn() -> Ops; 4] {
    [
        twin!(u64, vec, n => n, x => *x, true),
        twin!(u64, vec, n => n, x => *x, true),
        twin!(String, flagged, n => n.to_string(), x => x.parse().unwrap(), true),
        twin!((), dense, _n => (), _x => 0, false),
    ]
}

fn all_shapes() -> Vec<fn() -> Ops> {
    SHAPES.iter().copied().chain(twins()).collect()
}

/// The same entity for the same number.
fn spare_entity(n: u64) -> Entity {
    let mut a = goggles::entity::Allocator::new();
    for _ in 0..n % 7 {
        a.allocate();
    }
    a.allocate()
}

type Held2<'a> = Box<dyn Any_ + 'a>;

/// Everything there is to do with a type.
#[derive(Clone, Copy)]
struct Ops {
    name: &'static str,
    keeps: bool,
    shown: fn(u64) -> u64,
    set_id: fn() -> ResourceId,
    res_id: fn() -> WorldResourceId,
    comp_id: fn() -> WorldResourceId,
    set_insert: fn(&mut ResourceSet, u64) -> Option<u64>,
    set_remove: fn(&mut ResourceSet) -> Option<u64>,
    set_contains: fn(&ResourceSet) -> bool,
    set_get: fn(&mut ResourceSet, Option<u64>) -> u64,
    set_read: for<'a> fn(&'a ResourceSet, bool) -> (u64, Held2<'a>),
    set_write: for<'a> fn(&'a ResourceSet, bool, Option<u64>) -> (u64, Held2<'a>),
    res_insert: fn(&mut World, u64) -> Option<u64>,
    res_remove: fn(&mut World) -> Option<u64>,
    res_contains: fn(&World) -> bool,
    res_get: fn(&mut World, Option<u64>) -> u64,
    res_read: for<'a> fn(&'a World, bool) -> (u64, Held2<'a>),
    res_write: for<'a> fn(&'a World, bool, Option<u64>) -> (u64, Held2<'a>),
    comp_register: fn(&mut World) -> Option<BTreeMap<u32, u64>>,
    comp_remove: fn(&mut World) -> Option<BTreeMap<u32, u64>>,
    comp_contains: fn(&World) -> bool,
    comp_all: fn(&mut World) -> BTreeMap<u32, u64>,
    comp_insert: fn(&mut World, Entity, u64, bool) -> Option<u64>,
    comp_take: fn(&mut World, Entity, bool) -> Option<u64>,
    comp_read: for<'a> fn(&'a World, bool, Entity) -> (Option<u64>, Held2<'a>),
    comp_write: for<'a> fn(&'a World, bool, Entity, Option<u64>) -> (Option<u64>, Held2<'a>),
    /// What requests for it declare: set read and written, resource read and written, component
    /// read and written, the resource read and component written, both written, the component twice.
    declared: fn() -> (Vec<Result<RwResources<ResourceId>, ResourceConflict>>, Vec<Result<WorldResources, ResourceConflict>>),
}

fn ops<T: Shape>() -> Ops {
    fn edit<T: Shape>(t: &mut T, to: Option<u64>) -> u64 {
        let old = t.show();
        if let Some(n) = to {
            *t = T::make(n);
        }
        old
    }
    fn all<T: Shape>(s: &MaskedStorage<T::Storage>) -> BTreeMap<u32, u64> {
        use goggles::{hibitset::BitSetLike, IntoJoinExt};
        s.mask().iter().zip(s.join()).map(|(i, t)| (i, t.show())).collect()
    }
    Ops {
        name: std::any::type_name::<T>(),
        keeps: T::keeps(),
        shown: |n| T::make(n).show(),
        set_id: ResourceId::of::<T>,
        res_id: WorldResourceId::resource::<T>,
        comp_id: WorldResourceId::component::<T>,
        set_insert: |s, n| s.insert(T::make(n)).map(|t| t.show()),
        set_remove: |s| s.remove::<T>().map(|t| t.show()),
        set_contains: |s| s.contains::<T>(),
        set_get: |s, n| edit(s.get_mut::<T>(), n),
        set_read: |s, f| {
            if f {
                let g = s.fetch::<Read<T>>();
                (g.show(), Box::new(g))
            } else {
                let g = s.borrow::<T>();
                (g.show(), Box::new(g))
            }
        },
        set_write: |s, f, n| {
            if f {
                let mut g = s.fetch::<Write<T>>();
                (edit(&mut *g, n), Box::new(g))
            } else {
                let mut g = s.borrow_mut::<T>();
                (edit(&mut *g, n), Box::new(g))
            }
        },
        res_insert: |w, n| w.insert_resource(T::make(n)).map(|t| t.show()),
        res_remove: |w| w.remove_resource::<T>().map(|t| t.show()),
        res_contains: |w| w.contains_resource::<T>(),
        res_get: |w, n| edit(w.get_resource_mut::<T>(), n),
        res_read: |w, f| {
            if f {
                let g = w.fetch::<ReadResource<T>>();
                (g.show(), Box::new(g))
            } else {
                let g = w.read_resource::<T>();
                (g.show(), Box::new(g))
            }
        },
        res_write: |w, f, n| {
            if f {
                let mut g = w.fetch::<WriteResource<T>>();
                (edit(&mut *g, n), Box::new(g))
            } else {
                let mut g = w.write_resource::<T>();
                (edit(&mut *g, n), Box::new(g))
            }
        },
        comp_register: |w| w.insert_component::<T>().map(|s| all::<T>(&s)),
        comp_remove: |w| w.remove_component::<T>().map(|s| all::<T>(&s)),
        comp_contains: |w| w.contains_component::<T>(),
        comp_all: |w| all::<T>(w.get_component_mut::<T>().storage()),
        comp_insert: |w, e, n, direct| {
            let old = if direct {
                w.get_component_mut::<T>().insert(e, T::make(n))
            } else {
                w.write_component::<T>().insert(e, T::make(n))
            };
            old.unwrap().map(|t| t.show())
        },
        comp_take: |w, e, direct| {
            let old = if direct {
                w.get_component_mut::<T>().remove(e)
            } else {
                w.write_component::<T>().remove(e)
            };
            old.unwrap().map(|t| t.show())
        },
        comp_read: |w, f, e| {
            let g = if f { w.fetch::<ReadComponent<T>>() } else { w.read_component::<T>() };
            (g.get(e).map(|t| t.show()), Box::new(g))
        },
        comp_write: |w, f, e, n| {
            let mut g = if f { w.fetch::<WriteComponent<T>>() } else { w.write_component::<T>() };
            (g.get_mut(e).map(|t| edit(t, n)), Box::new(g))
        },
        declared: || {
            (
                vec![
                    Read::<T>::check_resources(),
                    Write::<T>::check_resources(),
                    <(Read<T>, Write<T>) as FetchResources<ResourceSet>>::check_resources(),
                    <(Read<T>, Read<T>) as FetchResources<ResourceSet>>::check_resources(),
                ],
                vec![
                    ReadResource::<T>::check_resources(),
                    WriteResource::<T>::check_resources(),
                    ReadComponent::<T>::check_resources(),
                    WriteComponent::<T>::check_resources(),
                    <(ReadResource<T>, WriteComponent<T>) as FetchResources<World>>::check_resources(),
                    <(WriteResource<T>, WriteComponent<T>) as FetchResources<World>>::check_resources(),
                    <(WriteResource<T>, ReadComponent<T>) as FetchResources<World>>::check_resources(),
                    <(ReadComponent<T>, WriteComponent<T>) as FetchResources<World>>::check_resources(),
                    <(WriteResource<T>, (Entities, ReadResource<T>)) as FetchResources<World>>::check_resources(),
                    <(ReadResource<T>, ReadResource<T>, ReadComponent<T>, ReadComponent<T>) as FetchResources<World>>::check_resources(),
                ],
            )
        },
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Set,
    Res,
    Comp,
}

/// What holding a component storage would not say: no entity of this.
#[derive(Default)]
struct ShapeModel {
    set: Option<u64>,
    res: Option<u64>,
    comp: Option<BTreeMap<u32, u64>>,
}

/// A map from type to value, and guards, with a few types out of many shapes.
fn shapes(c: &mut Case) -> Res {
    let mut set = ResourceSet::new();
    let mut world = World::new();
    let shapes = all_shapes();
    let n = if c.rng.chance(1, 100) { shapes.len() } else { c.rng.range(2, 5) as usize };
    let mut pick: Vec<usize> = (0..shapes.len()).collect();
    c.rng.shuffle(&mut pick);
    if c.rng.chance(1, 10) {
        // The twins come first.
        pick.sort_by_key(|i| *i < SHAPES.len());
    }
    pick.truncate(n);
    let types: Vec<Ops> = pick.iter().map(|i| shapes[*i]()).collect();
    c.mix_str(&format!("{pick:?}"));
    let mut model: Vec<ShapeModel> = types.iter().map(|_| ShapeModel::default()).collect();
    let entities: Vec<Entity> = (0..4).map(|_| world.create_entity()).collect();
    let rounds = c.rng.range(5, 60);
    for _ in 0..rounds {
        let i = c.rng.idx(n);
        let t = types[i];
        let m = &mut model[i];
        let v = c.rng.below(4);
        let e = *c.rng.pick(&entities);
        let f = c.rng.bool();
        let shown = (t.shown)(v);
        ensure!(t.keeps || shown == 0, "the harness is wrong about {}", t.name);
        let what = c.rng.below(12);
        match what {
            0 => ensure_eq!((t.set_insert)(&mut set, v), m.set.replace(shown), "{}: what insert into the set replaced", t.name),
            1 => ensure_eq!((t.res_insert)(&mut world, v), m.res.replace(shown), "{}: what inserting the resource replaced", t.name),
            2 if f => ensure_eq!((t.set_remove)(&mut set), m.set.take(), "{}: what remove returned", t.name),
            2 => ensure_eq!((t.res_remove)(&mut world), m.res.take(), "{}: what removing the resource returned", t.name),
            3 if f => ensure_eq!((t.comp_remove)(&mut world), m.comp.take(), "{}: the storage that was removed", t.name),
            3 | 4 => ensure_eq!(
                (t.comp_register)(&mut world),
                m.comp.replace(BTreeMap::new()),
                "{}: the storage that registering returned",
                t.name
            ),
            5..=6 => {
                let got = catch(|| (t.comp_insert)(&mut world, e, v, f)).ok();
                let want = m.comp.as_mut().map(|m| m.insert(e.index(), shown));
                ensure_eq!(got, want, "{}: what inserting a component replaced", t.name);
            }
            7 => {
                let got = catch(|| (t.comp_take)(&mut world, e, f)).ok();
                let want = m.comp.as_mut().map(|m| m.remove(&e.index()));
                ensure_eq!(got, want, "{}: what removing a component returned", t.name);
            }
            8 => {
                let got = catch(|| (t.set_get)(&mut set, Some(v))).ok();
                ensure_eq!(got, m.set, "{}: what direct access to the set shows", t.name);
                m.set.as_mut().map(|m| *m = shown);
            }
            9 => {
                let got = catch(|| (t.res_get)(&mut world, Some(v))).ok();
                ensure_eq!(got, m.res, "{}: what direct access to the resource shows", t.name);
                m.res.as_mut().map(|m| *m = shown);
            }
            // Hold one place and try all others.
            _ => {
                let kind = *c.rng.pick(&[Kind::Set, Kind::Res, Kind::Comp]);
                let excl = c.rng.bool();
                let to = c.rng.chance(1, 3).then_some(v);
                let (got, want, held) = match (kind, excl) {
                    (Kind::Set, false) => {
                        let r = catch(|| (t.set_read)(&set, f)).ok();
                        (r.as_ref().map(|r| Some(r.0)), m.set.map(Some), r.map(|r| r.1))
                    }
                    (Kind::Set, true) => {
                        let r = catch(|| (t.set_write)(&set, f, to)).ok();
                        (r.as_ref().map(|r| Some(r.0)), m.set.map(Some), r.map(|r| r.1))
                    }
                    (Kind::Res, false) => {
                        let r = catch(|| (t.res_read)(&world, f)).ok();
                        (r.as_ref().map(|r| Some(r.0)), m.res.map(Some), r.map(|r| r.1))
                    }
                    (Kind::Res, true) => {
                        let r = catch(|| (t.res_write)(&world, f, to)).ok();
                        (r.as_ref().map(|r| Some(r.0)), m.res.map(Some), r.map(|r| r.1))
                    }
                    (Kind::Comp, false) => {
                        let r = catch(|| (t.comp_read)(&world, f, e)).ok();
                        let want = m.comp.as_ref().map(|m| m.get(&e.index()).copied());
                        (r.as_ref().map(|r| r.0), want, r.map(|r| r.1))
                    }
                    (Kind::Comp, true) => {
                        let r = catch(|| (t.comp_write)(&world, f, e, to)).ok();
                        let want = m.comp.as_ref().map(|m| m.get(&e.index()).copied());
                        (r.as_ref().map(|r| r.0), want, r.map(|r| r.1))
                    }
                };
                ensure_eq!(got, want, "{}: what borrowing ({kind:?}, exclusive: {excl}) shows", t.name);
                if let (true, Some(_)) = (excl, to) {
                    match kind {
                        Kind::Set => drop(m.set.as_mut().map(|m| *m = shown)),
                        Kind::Res => drop(m.res.as_mut().map(|m| *m = shown)),
                        Kind::Comp => drop(m.comp.as_mut().and_then(|m| m.get_mut(&e.index()).map(|v| *v = shown))),
                    }
                }
                for (j, t2) in types.iter().enumerate() {
                    for k2 in [Kind::Set, Kind::Res, Kind::Comp] {
                        for excl2 in [false, true] {
                            let ok = match (k2, excl2) {
                                (Kind::Set, false) => catch(|| drop((t2.set_read)(&set, !f))).is_ok(),
                                (Kind::Set, true) => catch(|| drop((t2.set_write)(&set, !f, None))).is_ok(),
                                (Kind::Res, false) => catch(|| drop((t2.res_read)(&world, !f))).is_ok(),
                                (Kind::Res, true) => catch(|| drop((t2.res_write)(&world, !f, None))).is_ok(),
                                (Kind::Comp, false) => catch(|| drop((t2.comp_read)(&world, !f, e))).is_ok(),
                                (Kind::Comp, true) => catch(|| drop((t2.comp_write)(&world, !f, e, None))).is_ok(),
                            };
                            let there = match k2 {
                                Kind::Set => model[j].set.is_some(),
                                Kind::Res => model[j].res.is_some(),
                                Kind::Comp => model[j].comp.is_some(),
                            };
                            let conflict = held.is_some() && i == j && k2 == kind && (excl || excl2);
                            ensure_eq!(
                                ok,
                                there && !conflict,
                                "{}: whether {k2:?} can be borrowed (exclusive: {excl2}) while {kind:?} of {} is {} (exclusive: {excl})",
                                t2.name,
                                t.name,
                                if held.is_some() { "held" } else { "absent" }
                            );
                            c.count("borrows tried", 1);
                        }
                    }
                }
                drop(held);
            }
        }
        c.op("step", i as u64, what);
        for (t, m) in types.iter().zip(&model) {
            ensure_eq!((t.set_contains)(&set), m.set.is_some(), "{}: presence in the set", t.name);
            ensure_eq!((t.res_contains)(&world), m.res.is_some(), "{}: presence of the resource", t.name);
            ensure_eq!((t.comp_contains)(&world), m.comp.is_some(), "{}: presence of the component type", t.name);
            if let Some(v) = m.set {
                ensure_eq!((t.set_get)(&mut set, None), v, "{}: the value in the set", t.name);
            }
            if let Some(v) = m.res {
                ensure_eq!((t.res_get)(&mut world, None), v, "{}: the resource", t.name);
            }
            if let Some(m) = &m.comp {
                ensure_eq!((t.comp_all)(&mut world), *m, "{}: the components", t.name);
            }
        }
        c.count("states compared", 1);
    }
    c.nontrivial = true;
    Ok(())
}

/// The identifiers and declared accesses of all shapes.
fn shape_requests(c: &mut Case) -> Res {
    let all: Vec<Ops> = all_shapes().iter().map(|o| o()).collect();
    let ids: BTreeSet<WorldResourceId> = all
        .iter()
        .flat_map(|t| [(t.res_id)(), (t.comp_id)()])
        .chain([WorldResourceId::Entities])
        .collect();
    ensure_eq!(ids.len(), 2 * all.len() + 1, "different identifiers of different places");
    let ids: BTreeSet<ResourceId> = all.iter().map(|t| (t.set_id)()).collect();
    ensure_eq!(ids.len(), all.len(), "different identifiers of different types");
    for t in &all {
        let (set, world) = (t.declared)();
        let s = (t.set_id)();
        let set_want: [Option<(Vec<ResourceId>, Vec<ResourceId>)>; 4] =
            [Some((vec![s], vec![])), Some((vec![], vec![s])), None, Some((vec![s], vec![]))];
        for (i, (g, w)) in set.iter().zip(set_want).enumerate() {
            let g = g.as_ref().ok().map(|g| (g.reads().copied().collect(), g.writes().copied().collect()));
            ensure_eq!(g, w, "{}: request {i} of a set declares", t.name);
        }
        let (e, r, k) = (WorldResourceId::Entities, (t.res_id)(), (t.comp_id)());
        let want: [Option<(Vec<WorldResourceId>, Vec<WorldResourceId>)>; 10] = [
            Some((vec![r], vec![])),
            Some((vec![], vec![r])),
            Some((vec![e, k], vec![])),
            Some((vec![e], vec![k])),
            Some((vec![e, r], vec![k])),
            Some((vec![e], vec![r, k])),
            Some((vec![e, k], vec![r])),
            None,
            None,
            Some((vec![e, r, k], vec![])),
        ];
        for (i, (g, w)) in world.iter().zip(want).enumerate() {
            let sorted = |i: Vec<WorldResourceId>| i.into_iter().collect::<BTreeSet<_>>();
            let g = g.as_ref().ok().map(|g| (sorted(g.reads().copied().collect()), sorted(g.writes().copied().collect())));
            let w = w.map(|(r, w)| (sorted(r), sorted(w)));
            ensure_eq!(g, w, "{}: request {i} of a world declares", t.name);
        }
        // Against another one: only what they share conflicts, and they share nothing.
        let other = *c.rng.pick(&all);
        let (set2, world2) = (other.declared)();
        let same = (other.set_id)() == s;
        for (a, b) in set.iter().zip(&set2) {
            let (Ok(a), Ok(b)) = (a, b) else { continue };
            let want = same && a.writes().next().is_some();
            ensure_eq!(a.conflicts_with(b), want, "whether requests for {} and {} conflict", t.name, other.name);
        }
        for (a, b) in world.iter().zip(&world2) {
            let (Ok(a), Ok(b)) = (a, b) else { continue };
            let want = same && a.writes().next().is_some();
            ensure_eq!(a.conflicts_with(b), want, "whether requests of a world for {} and {} conflict", t.name, other.name);
        }
        c.count("requests of plain types", 14);
    }
    c.op("shape requests", c.no, 0);
    c.nontrivial = true;
    Ok(())
}
