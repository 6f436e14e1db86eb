// C22 and C24 with many component types of different shapes: up to 64 registered at once, up to 64 in a set.

/// A component type, in each kind of storage; nothing, a number, a box, more than a page.
macro_rules! family {
    ($t:ident, $storage:ty, $field:ty, $n:ident => $make:expr, $x:ident => $show:expr) => {
        #[derive(Clone)]
        pub struct $t<const N: usize>($field);
        impl<const N: usize> Component for $t<N> {
            type Storage = $storage;
        }
        impl<const N: usize> Many for $t<N> {
            fn make($n: u64) -> Self {
                $t($make)
            }
            fn show(&self) -> u64 {
                let $x = &self.0;
                $show
            }
        }
    };
}

trait Many: Component<Storage: Default + Send + Sync> + Clone + Send + Sync + 'static {
    fn make(n: u64) -> Self;
    fn show(&self) -> u64;
}

family!(Plain, VecStorage<Self>, u64, n => n, x => *x);
family!(Boxed, HashMapStorage<Self>, Box<u64>, n => Box::new(n), x => **x);
family!(Small, Flagged<DenseVecStorage<Self>>, u8, n => n as u8, x => *x as u64);
family!(Nothing, DenseVecStorage<Self>, (), _n => (), _x => 0);
family!(Large, VecStorage<Self>, [u64; 600], n => [n; 600], x => x[599]);
family!(Text, Flagged<VecStorage<Self>>, String, n => n.to_string(), x => x.parse().unwrap());

type Rows = BTreeMap<u32, u64>;

#[derive(Clone, Copy)]
struct Ops {
    name: &'static str,
    shown: fn(u64) -> u64,
    register: fn(&mut World) -> Option<Rows>,
    unregister: fn(&mut World) -> Option<Rows>,
    present: fn(&World) -> bool,
    all: fn(&World, u64) -> Rows,
    insert: fn(&mut World, Entity, u64, u64) -> Result<Option<u64>, String>,
    remove: fn(&mut World, Entity, u64) -> Result<Option<u64>, String>,
    get: fn(&World, Entity) -> Option<u64>,
    s_insert: fn(&mut AnyComponentSet, u64) -> Option<u64>,
    s_remove: fn(&mut AnyComponentSet) -> Option<u64>,
    s_get: fn(&AnyComponentSet) -> Option<u64>,
    s_edit: fn(&mut AnyComponentSet, u64) -> Option<u64>,
    s_contains: fn(&AnyComponentSet) -> bool,
    c_insert: fn(&mut AnyCloneComponentSet, u64) -> Option<u64>,
    c_get: fn(&AnyCloneComponentSet) -> Option<u64>,
    c_edit: fn(&mut AnyCloneComponentSet, u64) -> Option<u64>,
    c_contains: fn(&AnyCloneComponentSet) -> bool,
}

fn rows<T: Many>(s: &MaskedStorage<T::Storage>) -> Rows {
    use goggles::hibitset::BitSetLike;
    s.mask().iter().zip(s.join()).map(|(i, t)| (i, t.show())).collect()
}

fn ops<T: Many>() -> Ops {
    Ops {
        name: std::any::type_name::<T>(),
        shown: |n| T::make(n).show(),
        register: |w| w.insert_component::<T>().map(|s| rows::<T>(&s)),
        unregister: |w| w.remove_component::<T>().map(|s| rows::<T>(&s)),
        present: |w| w.contains_component::<T>(),
        all: |w, how| match how % 3 {
            0 => rows::<T>(w.read_component::<T>().storage()),
            1 => rows::<T>(w.fetch::<WriteComponent<T>>().storage()),
            _ => {
                let c = w.read_component::<T>();
                (&w.entities(), &c).join().map(|(e, t)| (e.index(), t.show())).collect()
            }
        },
        insert: |w, e, n, how| match how % 2 {
            0 => w.get_component_mut::<T>().insert(e, T::make(n)),
            _ => w.write_component::<T>().insert(e, T::make(n)),
        }
        .map(|o| o.map(|t| t.show()))
        .map_err(|e| e.to_string()),
        remove: |w, e, how| match how % 2 {
            0 => w.get_component_mut::<T>().remove(e),
            _ => w.write_component::<T>().remove(e),
        }
        .map(|o| o.map(|t| t.show()))
        .map_err(|e| e.to_string()),
        get: |w, e| w.read_component::<T>().get(e).map(|t| t.show()),
        s_insert: |s, n| s.insert(T::make(n)).map(|t| t.show()),
        s_remove: |s| s.remove::<T>().map(|t| t.show()),
        s_get: |s| s.get::<T>().map(|t| t.show()),
        s_edit: |s, n| s.get_mut::<T>().map(|t| { *t = T::make(n); t.show() }),
        s_contains: |s| s.contains::<T>(),
        c_insert: |s, n| s.insert(T::make(n)).map(|t| t.show()),
        c_get: |s| s.get::<T>().map(|t| t.show()),
        c_edit: |s, n| s.get_mut::<T>().map(|t| { *t = T::make(n); t.show() }),
        c_contains: |s| s.contains::<T>(),
    }
}

macro_rules! tables {
    ($($n:literal)*) => {
        fn table() -> Vec<Ops> {
            vec![$(ops::<Plain<$n>>(), ops::<Boxed<$n>>(), ops::<Small<$n>>(), ops::<Nothing<$n>>(), ops::<Large<$n>>(), ops::<Text<$n>>()),*]
        }
    };
}
tables!(0 1 2 3 4 5 6 7 8 9);

/// Types that only their blocks tell apart: even their full names are the same.
macro_rules! twin {
    ($storage:ident, $field:ty, $n:ident => $make:expr, $x:ident => $show:expr) => {{
        #[derive(Clone)]
        struct Twin($field);
        impl Component for Twin {
            type Storage = $storage<Self>;
        }
        impl Many for Twin {
            fn make($n: u64) -> Self {
                Twin($make)
            }
            fn show(&self) -> u64 {
                let $x = &self.0;
                $show
            }
        }
        ops::<Twin>()
    }};
}

fn twins() -> Vec<Ops> {
    vec![
        twin!(VecStorage, u64, n => n, x => *x),
        twin!(VecStorage, u64, n => n, x => *x),
        twin!(HashMapStorage, String, n => n.to_string(), x => x.parse().unwrap()),
        twin!(DenseVecStorage, (), _n => (), _x => 0),
    ]
}

struct Model {
    w: World,
    comps: Vec<Option<Rows>>,
    /// Alive, and asked to be deleted.
    live: Vec<(Entity, bool)>,
    dead: Vec<Entity>,
}

impl Model {
    fn forget(&mut self, e: Entity) {
        for c in self.comps.iter_mut().flatten() {
            c.remove(&e.index());
        }
        self.dead.push(e);
    }
    fn compare(&mut self, t: &[Ops], how: u64) -> Res {
        for (k, (o, m)) in t.iter().zip(&self.comps).enumerate() {
            ensure_eq!((o.present)(&self.w), m.is_some(), "whether component type {k}, {}, is registered", o.name);
            if let Some(m) = m {
                let got = (o.all)(&self.w, how);
                ensure!(got == *m, "components of type {k}, {}: {got:?}, expected {m:?}", o.name);
            }
        }
        Ok(())
    }
}

fn many_types(c: &mut Case, sets: bool) -> Res {
    let mut t = table();
    if c.rng.chance(1, 4) {
        c.rng.shuffle(&mut t);
        t.extend(twins());
        t.reverse();
    } else {
        t.extend(twins());
        c.rng.shuffle(&mut t);
    }
    let n = *c.rng.pick(&[3, 8, 9, 17, 33, 60, 64]);
    t.truncate(n);
    let mut m = Model { w: World::new(), comps: vec![None; n], live: Vec::new(), dead: Vec::new() };
    for k in 0..n {
        if c.rng.chance(7, 8) {
            ensure!((t[k].register)(&mut m.w).is_none(), "a storage was there before");
            m.comps[k] = Some(Rows::new());
        }
    }
    for _ in 0..c.rng.range(1, 12) {
        m.live.push((m.w.create_entity(), false));
    }
    let fill = c.rng.range(1, 4);
    for (e, _) in m.live.clone() {
        for k in 0..n {
            if m.comps[k].is_some() && c.rng.chance(fill, 4) {
                let v = c.rng.below(200);
                ensure_eq!((t[k].insert)(&mut m.w, e, v, c.rng.u64()), Ok(None), "first insertion");
                m.comps[k].as_mut().unwrap().insert(e.index(), (t[k].shown)(v));
            }
        }
    }
    m.compare(&t, 0)?;
    // Two of each kind of set.
    let mut any: [(AnyComponentSet, Rows); 2] = Default::default();
    let mut cloned: [(AnyCloneComponentSet, Rows); 2] = Default::default();
    for _ in 0..c.rng.range(5, 40) {
        let k = c.rng.idx(n);
        let o = t[k];
        let v = c.rng.below(200);
        let shown = (o.shown)(v);
        let at = c.rng.idx(2);
        let how = c.rng.u64();
        let what = if sets && c.rng.chance(2, 3) { 20 + c.rng.below(12) } else { c.rng.below(13) };
        c.op("step", what, k as u64);
        // An entity, dead or alive.
        let e = if m.live.is_empty() || (!m.dead.is_empty() && c.rng.chance(1, 6)) {
            match m.dead.is_empty() {
                true => continue,
                false => *c.rng.pick(&m.dead),
            }
        } else {
            c.rng.pick(&m.live).0
        };
        let alive = m.live.iter().any(|l| l.0 == e);
        // What a set does to a world, if it can.
        let deliver = |m: &mut Model, set: &Rows| -> Result<bool, ()> {
            if !alive {
                return Err(());
            }
            let mut replaced = false;
            for (k, v) in set {
                replaced |= m.comps[*k as usize].as_mut().unwrap().insert(e.index(), *v).is_some();
            }
            Ok(replaced)
        };
        let registered = |m: &Model, set: &Rows| set.keys().all(|k| m.comps[*k as usize].is_some());
        match what {
            0..=1 => {
                let e = if what == 0 { m.w.create_entity() } else { m.w.entities().create() };
                m.live.push((e, false));
                for (k, o) in t.iter().enumerate() {
                    if m.comps[k].is_some() {
                        ensure_eq!((o.get)(&m.w, e), None, "component {}, {} of a new entity", k, o.name);
                    }
                }
            }
            2..=3 => {
                ensure_eq!(m.w.delete_entity(e).is_ok(), alive, "whether an entity could be deleted");
                if alive {
                    m.live.retain(|l| l.0 != e);
                    m.forget(e);
                }
            }
            4 => {
                for l in m.live.iter_mut() {
                    if c.rng.chance(1, 3) {
                        m.w.entities().delete(l.0).map_err(|e| e.to_string())?;
                        l.1 = true;
                    }
                }
            }
            5..=6 => {
                m.w.merge();
                let gone: Vec<Entity> = m.live.iter().filter(|l| l.1).map(|l| l.0).collect();
                m.live.retain(|l| !l.1);
                gone.into_iter().for_each(|e| m.forget(e));
            }
            7 => {
                let got = (o.register)(&mut m.w);
                ensure_eq!(got, m.comps[k].replace(Rows::new()), "storage that registering {} again handed back", o.name);
            }
            8 => {
                let got = (o.unregister)(&mut m.w);
                ensure_eq!(got, m.comps[k].take(), "storage that removing {} handed back", o.name);
            }
            9..=10 if m.comps[k].is_some() => {
                let got = (o.remove)(&mut m.w, e, how);
                let want = alive.then(|| m.comps[k].as_mut().unwrap().remove(&e.index()));
                ensure_eq!(got.ok(), want, "what removing {} from an entity (alive: {alive}) returned", o.name);
            }
            11..=12 if m.comps[k].is_some() => {
                let got = (o.insert)(&mut m.w, e, v, how);
                let want = alive.then(|| m.comps[k].as_mut().unwrap().insert(e.index(), shown));
                ensure_eq!(got.ok(), want, "what inserting {} into an entity (alive: {alive}) returned", o.name);
            }
            // Fill a set with (about) everything.
            20 => {
                for (k, o) in t.iter().enumerate() {
                    if c.rng.chance(fill, 4) {
                        let v = c.rng.below(200);
                        let shown = (o.shown)(v);
                        ensure_eq!((o.s_insert)(&mut any[at].0, v), any[at].1.insert(k as u32, shown), "what inserting {} into a set replaced", o.name);
                        let v = c.rng.below(200);
                        let shown = (o.shown)(v);
                        ensure_eq!((o.c_insert)(&mut cloned[at].0, v), cloned[at].1.insert(k as u32, shown), "what inserting {} into a clone set replaced", o.name);
                    }
                }
            }
            21 => ensure_eq!((o.s_insert)(&mut any[at].0, v), any[at].1.insert(k as u32, shown), "what inserting {} into a set replaced", o.name),
            22 => ensure_eq!((o.c_insert)(&mut cloned[at].0, v), cloned[at].1.insert(k as u32, shown), "what inserting {} into a clone set replaced", o.name),
            23 => ensure_eq!((o.s_remove)(&mut any[at].0), any[at].1.remove(&(k as u32)), "what removing {} from a set returned", o.name),
            24 => {
                let (mine, other) = (std::mem::take(&mut any[at]), std::mem::take(&mut any[1 - at]));
                let replaced = other.1.keys().any(|k| mine.1.contains_key(k));
                let (mut s, mut r) = mine;
                ensure_eq!(s.merge(other.0), replaced, "whether merging sets of {} and {} types overwrote anything", r.len(), other.1.len());
                r.extend(other.1);
                any[at] = (s, r);
            }
            25 => {
                let (mine, other) = (std::mem::take(&mut cloned[at]), std::mem::take(&mut cloned[1 - at]));
                let replaced = other.1.keys().any(|k| mine.1.contains_key(k));
                let (mut s, mut r) = mine;
                ensure_eq!(s.merge(other.0), replaced, "whether merging clone sets of {} and {} types overwrote anything", r.len(), other.1.len());
                r.extend(other.1);
                cloned[at] = (s, r);
            }
            26 => {
                let replaced = cloned[at].1.keys().any(|k| any[at].1.contains_key(k));
                ensure_eq!(cloned[at].0.clone_into_set(&mut any[at].0), replaced, "whether cloning a set into another overwrote anything");
                let r = cloned[at].1.clone();
                any[at].1.extend(r);
            }
            27..=28 if registered(&m, &any[at].1) => {
                let (s, r) = std::mem::take(&mut any[at]);
                let want = deliver(&mut m, &r);
                let got = s.insert_into_world(&mut m.w, e);
                ensure!((r.is_empty() && !alive) || got.as_ref().ok() == want.as_ref().ok(), "inserting a set of {} types: {got:?}, expected {want:?}", r.len());
            }
            29..=30 if registered(&m, &cloned[at].1) => {
                let r = cloned[at].1.clone();
                let want = deliver(&mut m, &r);
                let got = cloned[at].0.insert_into_world(&mut m.w, e);
                ensure!((r.is_empty() && !alive) || got.as_ref().ok() == want.as_ref().ok(), "inserting a clone set of {} types: {got:?}, expected {want:?}", r.len());
            }
            31 => {
                let there = any[at].1.contains_key(&(k as u32));
                ensure_eq!((o.s_edit)(&mut any[at].0, v), there.then_some(shown), "mutable access to {} in a set", o.name);
                if there {
                    any[at].1.insert(k as u32, shown);
                }
                let there = cloned[at].1.contains_key(&(k as u32));
                ensure_eq!((o.c_edit)(&mut cloned[at].0, v), there.then_some(shown), "mutable access to {} in a clone set", o.name);
                if there {
                    cloned[at].1.insert(k as u32, shown);
                }
            }
            _ => {}
        }
        m.compare(&t, how)?;
        for (s, r) in &any {
            ensure_eq!(s.len(), r.len(), "number of types in a set");
            for (k, o) in t.iter().enumerate() {
                let want = r.get(&(k as u32)).copied();
                ensure!((o.s_get)(s) == want && (o.s_contains)(s) == want.is_some(), "{} in a set: {:?}, expected {want:?}", o.name, (o.s_get)(s));
            }
        }
        for (s, r) in &cloned {
            for (k, o) in t.iter().enumerate() {
                let want = r.get(&(k as u32)).copied();
                ensure!((o.c_get)(s) == want && (o.c_contains)(s) == want.is_some(), "{} in a clone set: {:?}, expected {want:?}", o.name, (o.c_get)(s));
            }
        }
        c.count("states with many types compared", 1);
    }
    c.max("component types", n as u64);
    c.mix(n as u64);
    c.nontrivial = true;
    Ok(())
}

pub fn run(r: &'static Runner, opts: &Opts, sets: bool) {
    r.run(
        "many-types",
        if sets {
            "3 to 64 component types of six shapes, in dynamic sets and a world: sets filled, edited, merged, cloned, delivered, all compared after each step"
        } else {
            "3 to 64 component types of six shapes, registered, removed and registered again between deletions and merges, all compared after each step"
        },
        opts.n(300, 8000),
        opts.threads,
        move |c| many_types(c, sets),
    );
}
