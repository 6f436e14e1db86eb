// ---------------------------------------------------------------------------------------------
// C15 and C16 with the types that the library itself works with as resources: storages of components,
// resource sets, worlds, allocators, dynamic sets, boxed values of any type.

trait Own: Sized + Send + Sync + 'static {
    fn make(n: u64) -> Self;
    fn show(&self) -> u64;
}

macro_rules! own {
    ($($t:ty, $n:ident => $make:expr, $x:ident => $show:expr;)*) => {
        $(
            impl Own for $t {
                fn make($n: u64) -> Self {
                    $make
                }
                fn show(&self) -> u64 {
                    let $x = self;
                    $show
                }
            }
        )*
        const OWN: &[fn() -> OwnOps] = &[$(own_ops::<$t>),*];
    };
}

type Stored<T> = MaskedStorage<<T as Component>::Storage>;

fn storage<T: Shape>(n: u64) -> Stored<T> {
    let mut s = Stored::<T>::default();
    s.insert(3, T::make(0));
    if n > 0 {
        s.insert(n as u32 + 10, T::make(n));
    }
    s
}

fn in_storage<T: Shape>(s: &Stored<T>) -> u64 {
    use goggles::hibitset::BitSetLike;
    s.mask().iter().map(|i| if i > 10 { i as u64 - 10 } else { 0 }).sum()
}

fn in_world(n: u64) -> World {
    let mut w = World::new();
    w.insert_resource(n);
    w.insert_component::<Of<u8>>();
    w
}

own! {
    Stored<Unit>, n => storage::<Unit>(n), x => in_storage::<Unit>(x);
    Stored<Of<u8>>, n => storage::<Of<u8>>(n), x => in_storage::<Of<u8>>(x);
    Stored<Of<i8>>, n => storage::<Of<i8>>(n), x => in_storage::<Of<i8>>(x);
    Stored<Of<u64>>, n => storage::<Of<u64>>(n), x => in_storage::<Of<u64>>(x);
    Stored<Of<String>>, n => storage::<Of<String>>(n), x => in_storage::<Of<String>>(x);
    Stored<Of<Option<Box<u64>>>>, n => storage::<Of<Option<Box<u64>>>>(n), x => in_storage::<Of<Option<Box<u64>>>>(x);
    <Of<u8> as Component>::Storage, _n => Default::default(), _x => 0;
    goggles::make_sync::MakeSync<Stored<Of<u8>>>, n => goggles::make_sync::MakeSync::new(storage::<Of<u8>>(n)), x => in_storage::<Of<u8>>(x.get());
    goggles::make_sync::MakeSync<u64>, n => goggles::make_sync::MakeSync::new(n), x => *x.get();
    ResourceSet, n => { let mut s = ResourceSet::new(); s.insert(n); s.insert(Unit); s }, x => *x.borrow::<u64>();
    World, n => in_world(n), x => *x.read_resource::<u64>();
    goggles::AnyComponentSet, n => { let mut s = goggles::AnyComponentSet::new(); s.insert(Of::<u64>(n)); s }, x => x.get::<Of<u64>>().unwrap().0;
    goggles::AnyCloneComponentSet, n => { let mut s = goggles::AnyCloneComponentSet::new(); s.insert(Cloned(n)); s }, x => x.get::<Cloned>().unwrap().0;
    goggles::entity::Allocator, n => { let mut a = goggles::entity::Allocator::new(); (0..n).for_each(|_| drop(a.allocate())); a }, x => x.max_entity_count() as u64;
    RwResources<WorldResourceId>, n => if n > 0 { RwResources::new().write(WorldResourceId::resource::<u64>()) } else { RwResources::new() }, x => x.writes().count() as u64;
    WorldResourceId, n => if n == 0 { WorldResourceId::Entities } else { WorldResourceId::resource::<u8>() }, x => (*x != WorldResourceId::Entities) as u64;
    Box<dyn Any + Send + Sync>, n => Box::new(n), x => *x.downcast_ref::<u64>().unwrap();
    Box<u64>, n => Box::new(n), x => **x;
    Box<Box<dyn Any + Send + Sync>>, n => Box::new(Box::new(n)), x => *x.downcast_ref::<u64>().unwrap();
    Option<u64>, n => (n > 0).then_some(n), x => x.unwrap_or(0);
    u64, n => n, x => *x;
    (), _n => (), _x => 0;
    (u64,), n => (n,), x => x.0;
    [u64; 1], n => [n], x => x[0];
    Arc<u64>, n => Arc::new(n), x => **x;
    std::any::TypeId, n => if n == 0 { std::any::TypeId::of::<Unit>() } else { std::any::TypeId::of::<Stored<Unit>>() }, x => (*x != std::any::TypeId::of::<Unit>()) as u64;
    goggles::hibitset::BitSet, n => { let mut b = goggles::hibitset::BitSet::new(); b.add(n as u32); b }, x => { use goggles::hibitset::BitSetLike; x.iter().map(|i| i as u64).sum() };
}

#[derive(Clone)]
struct Cloned(u64);
impl Component for Cloned {
    type Storage = VecStorage<Cloned>;
}

#[derive(Clone, Copy)]
struct OwnOps {
    name: &'static str,
    shown: fn(u64) -> u64,
    insert: fn(&mut ResourceSet, &mut World, bool, u64) -> Option<u64>,
    remove: fn(&mut ResourceSet, &mut World, bool) -> Option<u64>,
    contains: fn(&ResourceSet, &World, bool) -> bool,
    get: fn(&mut ResourceSet, &mut World, bool, Option<u64>) -> u64,
    read: for<'a> fn(&'a ResourceSet, &'a World, bool, bool) -> (u64, Held2<'a>),
    write: for<'a> fn(&'a ResourceSet, &'a World, bool, bool, Option<u64>) -> (u64, Held2<'a>),
}

fn own_ops<T: Own>() -> OwnOps {
    fn edit<T: Own>(t: &mut T, to: Option<u64>) -> u64 {
        let old = t.show();
        if let Some(n) = to {
            *t = T::make(n);
        }
        old
    }
    OwnOps {
        name: std::any::type_name::<T>(),
        shown: |n| T::make(n).show(),
        insert: |s, w, world, n| if world { w.insert_resource(T::make(n)) } else { s.insert(T::make(n)) }.map(|t| t.show()),
        remove: |s, w, world| if world { w.remove_resource::<T>() } else { s.remove::<T>() }.map(|t| t.show()),
        contains: |s, w, world| if world { w.contains_resource::<T>() } else { s.contains::<T>() },
        get: |s, w, world, n| edit(if world { w.get_resource_mut::<T>() } else { s.get_mut::<T>() }, n),
        read: |s, w, world, fetch| match (world, fetch) {
            (false, false) => {
                let g = s.borrow::<T>();
                (g.show(), Box::new(g))
            }
            (false, true) => {
                let g = s.fetch::<Read<T>>();
                (g.show(), Box::new(g))
            }
            (true, false) => {
                let g = w.read_resource::<T>();
                (g.show(), Box::new(g))
            }
            (true, true) => {
                let g = w.fetch::<ReadResource<T>>();
                (g.show(), Box::new(g))
            }
        },
        write: |s, w, world, fetch, n| match (world, fetch) {
            (false, false) => {
                let mut g = s.borrow_mut::<T>();
                (edit(&mut *g, n), Box::new(g))
            }
            (false, true) => {
                let mut g = s.fetch::<Write<T>>();
                (edit(&mut *g, n), Box::new(g))
            }
            (true, false) => {
                let mut g = w.write_resource::<T>();
                (edit(&mut *g, n), Box::new(g))
            }
            (true, true) => {
                let mut g = w.fetch::<WriteResource<T>>();
                (edit(&mut *g, n), Box::new(g))
            }
        },
    }
}

/// Register or remove one of these component types and put the storage handed back into the world as a
/// resource, whose earlier value is told; and entities of the world are there throughout.
const STORED: usize = 6;
macro_rules! for_stored {
    ($k:expr, $t:ident => $e:expr) => {
        match $k {
            0 => { type $t = Unit; $e }
            1 => { type $t = Of<u8>; $e }
            2 => { type $t = Of<i8>; $e }
            3 => { type $t = Of<u64>; $e }
            4 => { type $t = Of<String>; $e }
            5 => { type $t = Of<Option<Box<u64>>>; $e }
            _ => unreachable!(),
        }
    };
}

fn own_types(c: &mut Case) -> Res {
    let (mut set, mut world) = (ResourceSet::new(), World::new());
    let entities: Vec<Entity> = (0..20).map(|_| world.create_entity()).collect();
    // A few types, and at times all storages among them.
    let n = if c.rng.chance(1, 50) { OWN.len() } else { c.rng.range(2, 7) as usize };
    let mut pick: Vec<usize> = (0..OWN.len()).collect();
    c.rng.shuffle(&mut pick);
    pick.truncate(n);
    pick.extend((0..STORED).filter(|_| c.rng.chance(1, 3)));
    pick.sort();
    pick.dedup();
    c.mix_str(&format!("{pick:?}"));
    let ops: Vec<OwnOps> = pick.iter().map(|i| OWN[*i]()).collect();
    // By place (set or world) and type.
    let mut model = [vec![None; ops.len()], vec![None; ops.len()]];
    // What the component storages hold (indexes beyond 10), if registered.
    let mut comps: Vec<Option<BTreeSet<u32>>> = vec![None; STORED];
    for _ in 0..c.rng.range(5, 50) {
        let i = c.rng.idx(ops.len());
        let o = ops[i];
        let at = c.rng.bool();
        let v = c.rng.below(4);
        let shown = (o.shown)(v);
        let m = &mut model[at as usize][i];
        let f = c.rng.bool();
        let what = c.rng.below(12);
        c.op("step", pick[i] as u64, what);
        match what {
            0..=2 => ensure_eq!((o.insert)(&mut set, &mut world, at, v), m.replace(shown), "{} (world: {at}): what inserting replaced", o.name),
            3 => ensure_eq!((o.remove)(&mut set, &mut world, at), m.take(), "{} (world: {at}): what removing returned", o.name),
            4 => {
                let got = catch(|| (o.get)(&mut set, &mut world, at, Some(v))).ok();
                ensure_eq!(got, *m, "{} (world: {at}): what direct access shows", o.name);
                if m.is_some() {
                    *m = Some(shown);
                }
            }
            5..=6 => {
                let excl = c.rng.bool();
                let r = if excl {
                    catch(|| (o.write)(&set, &world, at, f, Some(v))).ok()
                } else {
                    catch(|| (o.read)(&set, &world, at, f)).ok()
                };
                ensure_eq!(r.as_ref().map(|r| r.0), *m, "{} (world: {at}): what borrowing shows (exclusive: {excl})", o.name);
                if excl && m.is_some() {
                    *m = Some(shown);
                }
                let holding = m.is_some();
                for (j, o2) in ops.iter().enumerate() {
                    for at2 in [false, true] {
                        for excl2 in [false, true] {
                            let ok = if excl2 {
                                catch(|| drop((o2.write)(&set, &world, at2, !f, None))).is_ok()
                            } else {
                                catch(|| drop((o2.read)(&set, &world, at2, !f))).is_ok()
                            };
                            let conflict = holding && i == j && at == at2 && (excl || excl2);
                            ensure_eq!(ok, model[at2 as usize][j].is_some() && !conflict, "{} (world: {at2}): whether it can be borrowed (exclusive: {excl2}) next to {} (world: {at}, held: {holding}, exclusive: {excl})", o2.name, o.name);
                        }
                    }
                }
                // Components of these types are elsewhere.
                for k in 0..STORED {
                    let ok = for_stored!(k, T => catch(|| drop(world.write_component::<T>())).is_ok());
                    ensure_eq!(ok, comps[k].is_some(), "whether component {k} can be borrowed next to {}", o.name);
                }
                drop(r);
            }
            _ => {
                let k = c.rng.idx(STORED);
                let keep = f;
                let e = *c.rng.pick(&entities[11..]);
                match what {
                    7..=9 => {
                        let old = comps[k].clone();
                        let put: Option<Option<u64>> = for_stored!(k, T => {
                            let back = if what == 9 { world.remove_component::<T>() } else { world.insert_component::<T>() };
                            ensure_eq!(back.is_some(), old.is_some(), "whether there was a storage of component {k}");
                            match back {
                                Some(s) if keep => {
                                    ensure_eq!(in_storage::<T>(&s), old.iter().flatten().map(|i| *i as u64 - 10).sum::<u64>(), "contents of the storage of component {k} handed back");
                                    Some(world.insert_resource(s).map(|s| in_storage::<T>(&s)))
                                }
                                _ => None,
                            }
                        });
                        comps[k] = (what < 9).then(BTreeSet::new);
                        let sum: u64 = old.iter().flatten().map(|i| *i as u64 - 10).sum();
                        if let Some(before) = put {
                            match pick.iter().position(|p| *p == k) {
                                Some(j) => ensure_eq!(before, model[1][j].replace(sum), "resource replaced by the storage of component {k}"),
                                // (not one that is watched: out again)
                                None => for_stored!(k, T => {
                                    ensure!(before.is_none(), "a storage was there as a resource before");
                                    ensure!(world.remove_resource::<Stored<T>>().is_some(), "the storage just inserted as a resource is gone");
                                }),
                            }
                            c.count("component storages made resources", 1);
                        }
                    }
                    10 if comps[k].is_some() => {
                        for_stored!(k, T => drop(world.write_component::<T>().insert(e, <T as Shape>::make(1)).map_err(|e| e.to_string())?));
                        comps[k].as_mut().unwrap().insert(e.index());
                    }
                    _ if comps[k].is_some() => {
                        let got = for_stored!(k, T => world.get_component_mut::<T>().remove(e).map_err(|e| e.to_string())?.is_some());
                        ensure_eq!(got, comps[k].as_mut().unwrap().remove(&e.index()), "whether component {k} was there");
                    }
                    _ => {}
                }
            }
        }
        for at in [false, true] {
            for (o, m) in ops.iter().zip(&model[at as usize]) {
                ensure_eq!((o.contains)(&set, &world, at), m.is_some(), "{} (world: {at}): presence", o.name);
                if m.is_some() {
                    ensure_eq!(Some((o.get)(&mut set, &mut world, at, None)), *m, "{} (world: {at}): value", o.name);
                }
            }
        }
        for k in 0..STORED {
            for_stored!(k, T => {
                ensure_eq!(world.contains_component::<T>(), comps[k].is_some(), "presence of component {k}");
                if let Some(m) = &comps[k] {
                    let sum: u64 = m.iter().map(|i| *i as u64 - 10).sum();
                    ensure_eq!(in_storage::<T>(world.get_component_mut::<T>().storage()), sum, "contents of component {k}");
                }
            });
        }
        c.count("states compared", 1);
    }
    c.nontrivial = true;
    Ok(())
}
