// Programs that must not compile, or must be harmless.  Split at the `//# PROPERTY name` lines; each becomes
// a program of its own, after `use attack::*;`, that uses no unsafe code.

//# C25 guard: reference outlives the guard
fn main() {
    let mut s: MS<Bx> = boxes();
    let r: &mut Bx = {
        let mut g = s.get_guard(0).unwrap();
        g.get_mut()
    };
    drop(s.remove(0));
    set(r);
}

//# C25 guard: shared reference outlives the guard
fn main() {
    let mut s: MS<Bx> = boxes();
    let r: &Bx = {
        let g = s.get_guard(0).unwrap();
        g.get()
    };
    drop(s.remove(0));
    see(r);
}

//# C25 guard: references with the lifetime of the storage
fn long<'a>(g: &mut GuardedElement<'a, VecStorage<Bx>>) -> &'a mut Bx {
    g.get_mut()
}
fn main() {
    let mut s: MS<Bx> = boxes();
    let mut g = s.get_guard(0).unwrap();
    let (a, b) = (long(&mut g), long(&mut g));
    let c = &**a;
    *b = Box::new(5);
    black_box(*c);
}

//# C25 guard: shared references with the lifetime of the storage
fn long<'a>(g: &GuardedElement<'a, VecStorage<Bx>>) -> &'a Bx {
    g.get()
}
fn main() {
    let mut s: MS<Bx> = boxes();
    let mut g = s.get_guard(0).unwrap();
    let a = &**long(&g);
    *g.get_mut() = Box::new(5);
    black_box(*a);
}

//# C25 guard: two mutable references
fn main() {
    let mut s: MD<Bx> = boxes();
    let mut g = s.get_guard(0).unwrap();
    let a = g.get_mut();
    let b = g.get_mut();
    let c = &**a;
    *b = Box::new(5);
    black_box(*c);
}

//# C25 guard: shared and mutable reference
fn main() {
    let mut s: MH<Bx> = boxes();
    let mut g = s.get_guard(0).unwrap();
    let a = &**g.get();
    *g.get_mut() = Box::new(5);
    black_box(*a);
}

//# C25 guard: mutable reference from a shared guard
fn main() {
    let mut s: MS<Bx> = boxes();
    let g = s.get_guard(0).unwrap();
    let a = &**g.get();
    let b = &g;
    *b.get_mut() = Box::new(5);
    black_box(*a);
}

//# C25 guard: two of the same
fn main() {
    let mut s: MS<Bx> = boxes();
    let g = s.get_guard(0).unwrap();
    let mut h = s.get_guard(0).unwrap();
    let a = &**g.get();
    *h.get_mut() = Box::new(5);
    black_box(*a);
}

//# C25 guard: cloned
fn main() {
    let mut s: MS<Bx> = boxes();
    let g = s.get_guard(0).unwrap();
    let mut h: GuardedElement<VecStorage<Bx>> = g.clone();
    let a = &**g.get();
    *h.get_mut() = Box::new(5);
    black_box(*a);
}

//# C25 guard: copied
fn main() {
    let mut s: MS<Bx> = boxes();
    let g = s.get_guard(0).unwrap();
    let mut h = g;
    let a = &**g.get();
    *h.get_mut() = Box::new(5);
    black_box(*a);
}

//# C25 guard: storage changed meanwhile
fn main() {
    let mut s: MS<Bx> = boxes();
    let g = s.get_guard(0).unwrap();
    drop(s.remove(0));
    see(g.get());
}

//# C25 guard: from a shared storage
fn main() {
    let s: MS<Bx> = boxes();
    let r = &s;
    let a = &**r.get(0).unwrap();
    *r.get_guard(0).unwrap().get_mut() = Box::new(5);
    black_box(*a);
}

//# C25 guard: made up
fn main() {
    let s: MS<Bx> = boxes();
    let g = GuardedElement { storage: s.raw_storage(), index: 4 };
    see(g.get());
}

//# C25 guard: variance
fn shorten<'a, 'b>(g: GuardedElement<'a, VecStorage<&'static String>>) -> GuardedElement<'a, VecStorage<&'b String>> {
    g
}
fn main() {
    let fixed: &'static String = Box::leak(Box::new(String::from("x")));
    let mut s: MS<&'static String> = filled(|_| fixed);
    {
        let short = String::from("short");
        *shorten(s.get_guard(0).unwrap()).get_mut() = &short;
    }
    black_box(s.get(0).unwrap().len() + s.get(0).unwrap().as_bytes()[0] as usize);
}

//# C25 guard: variance of a dense storage
fn shorten<'a, 'b>(g: GuardedElement<'a, DenseVecStorage<&'static String>>) -> GuardedElement<'a, DenseVecStorage<&'b String>> {
    g
}
fn main() {
    let fixed: &'static String = Box::leak(Box::new(String::from("x")));
    let mut s: MD<&'static String> = filled(|_| fixed);
    {
        let short = String::from("short");
        *shorten(s.get_guard(0).unwrap()).get_mut() = &short;
    }
    black_box(s.get(0).unwrap().as_bytes()[0] as usize);
}

//# C25 guard: variance of a hash map storage
fn shorten<'a, 'b>(g: GuardedElement<'a, HashMapStorage<&'static String>>) -> GuardedElement<'a, HashMapStorage<&'b String>> {
    g
}
fn main() {
    let fixed: &'static String = Box::leak(Box::new(String::from("x")));
    let mut s: MH<&'static String> = filled(|_| fixed);
    {
        let short = String::from("short");
        *shorten(s.get_guard(0).unwrap()).get_mut() = &short;
    }
    black_box(s.get(0).unwrap().as_bytes()[0] as usize);
}

//# C25 storage: get, then remove
fn main() {
    let mut s: MS<Bx> = boxes();
    let a = s.get(0).unwrap();
    drop(s.remove(0));
    see(a);
}

//# C25 storage: get, then insert far away
fn main() {
    let mut s: MS<Bx> = boxes();
    let a = s.get(0).unwrap();
    s.insert(9000, Box::new(1));
    see(a);
}

//# C25 storage: get and get_mut
fn main() {
    let mut s: MS<Bx> = boxes();
    let a = &**s.get(0).unwrap();
    *s.get_mut(0).unwrap() = Box::new(5);
    black_box(*a);
}

//# C25 storage: get_mut twice
fn main() {
    let mut s: MS<Bx> = boxes();
    let a = s.get_mut(0).unwrap();
    let b = s.get_mut(0).unwrap();
    let c = &**a;
    *b = Box::new(5);
    black_box(*c);
}

//# C25 storage: get_mut through a shared reference
fn change(s: &MS<Bx>) {
    *s.get_mut(0).unwrap() = Box::new(5);
}
fn main() {
    let s: MS<Bx> = boxes();
    let a = &**s.get(0).unwrap();
    change(&s);
    black_box(*a);
}

//# C25 storage: insert through a shared reference
fn change(s: &MS<Bx>) {
    s.insert(0, Box::new(5));
    s.insert(9000, Box::new(5));
}
fn main() {
    let s: MS<Bx> = boxes();
    let a = &**s.get(0).unwrap();
    change(&s);
    black_box(*a);
}

//# C25 storage: remove through a shared reference
fn change(s: &MS<Bx>) {
    drop(s.remove(0));
}
fn main() {
    let s: MS<Bx> = boxes();
    let a = &**s.get(0).unwrap();
    change(&s);
    black_box(*a);
}

//# C25 storage: get_or_insert_with twice
fn main() {
    let mut s: MS<Bx> = boxes();
    let a = s.get_or_insert_with(0, Default::default);
    let b = s.get_or_insert_with(0, Default::default);
    let c = &**a;
    *b = Box::new(5);
    black_box(*c);
}

//# C25 storage: get_or_insert_with whose closure uses the storage
fn main() {
    let mut s: MS<Bx> = boxes();
    s.get_or_insert_with(7, || {
        s.insert(7, Box::new(5));
        Box::new(6)
    });
    drop(s.remove(7));
}

//# C25 storage: reference outlives it
fn main() {
    let a: &Bx = {
        let s: MS<Bx> = boxes();
        s.get(0).unwrap()
    };
    see(a);
}

//# C25 storage: values outlived by their storage
struct Looks<'a>(&'a Bx);
impl<'a> Drop for Looks<'a> {
    fn drop(&mut self) {
        see(self.0);
    }
}
fn main() {
    let mut s = MS::<Looks>::default();
    let b = Box::new(5);
    s.insert(0, Looks(&b));
}

//# C25 storage: slice, then insert
fn main() {
    let mut s: MD<Bx> = boxes();
    let a = s.as_slice();
    for i in 10..100 {
        s.insert(i, Box::new(1));
    }
    see(&a[0]);
}

//# C25 storage: two mutable slices
fn main() {
    let mut s: MD<Bx> = boxes();
    let a = s.as_mut_slice();
    let b = s.as_mut_slice();
    let c = &*a[0];
    b[0] = Box::new(4);
    black_box(*c);
}

//# C25 storage: mutable slice of a shared storage
fn change(s: &MD<Bx>) {
    s.as_mut_slice()[0] = Box::new(5);
}
fn main() {
    let s: MD<Bx> = boxes();
    let a = &*s.as_slice()[0];
    change(&s);
    black_box(*a);
}

//# C25 storage: slice and mutable join
fn main() {
    let mut s: MD<Bx> = boxes();
    let a = &*s.as_slice()[0];
    (&mut s).join().for_each(|v| *v = Box::new(4));
    black_box(*a);
}

//# C25 storage: mask changed
fn main() {
    let mut s: MS<Bx> = boxes();
    s.mask().add(4);
    s.mask().add(3);
    see(s.get(3).unwrap());
    s.remove(4);
}

//# C25 storage: mask changed mutably
fn main() {
    let mut s: MS<Bx> = boxes();
    let m: &mut BitSet = s.mask_mut();
    m.add(3);
    see(s.get(3).unwrap());
}

//# C25 storage: mask field
fn main() {
    let mut s: MS<Bx> = boxes();
    s.mask.add(3);
    see(s.get(3).unwrap());
}

//# C25 storage: raw storage field
fn main() {
    let mut s: MS<Bx> = boxes();
    s.storage = VecStorage::default();
    see(s.get(2).unwrap());
}

//# C25 storage: put together
fn main() {
    let mut mask = BitSet::new();
    mask.add(3);
    let s = MaskedStorage::<VecStorage<Bx>> { mask, storage: VecStorage::default() };
    see(s.get(3).unwrap());
}

//# C25 storage: cloned
fn main() {
    let s: MS<Bx> = boxes();
    let t: MS<Bx> = s.clone();
    drop(s);
    drop(t);
}

//# C25 raw storage: exchanged
fn main() {
    let mut s: MS<Bx> = boxes();
    mem::swap(s.raw_storage_mut(), &mut VecStorage::default());
    see(s.get(2).unwrap());
}

//# C25 raw storage: exchanged in a dense storage
fn main() {
    let mut s: MD<Bx> = boxes();
    *s.raw_storage_mut() = DenseVecStorage::default();
    see(s.get(2).unwrap());
}

//# C25 raw storage: get
fn main() {
    let s: MS<Bx> = boxes();
    see(s.raw_storage().get(4));
}

//# C25 raw storage: get_mut
fn main() {
    let s: MS<Bx> = boxes();
    let a = &**s.get(0).unwrap();
    *s.raw_storage().get_mut(0) = Box::new(4);
    black_box(*a);
}

//# C25 raw storage: remove
fn main() {
    let mut s = VecStorage::<Bx>::default();
    s.insert(3, Box::new(5));
    drop(s.remove(2));
}

//# C25 raw storage: insert
fn main() {
    let mut s = DenseVecStorage::<Bx>::default();
    s.insert(3, Box::new(5));
    see(s.get(1));
}

//# C25 join: item outlives the storage
fn main() {
    let a: &Bx = {
        let s: MS<Bx> = boxes();
        (&s).join().next().unwrap()
    };
    see(a);
}

//# C25 join: storage changed meanwhile
fn main() {
    let mut s: MS<Bx> = boxes();
    for v in (&s).join() {
        drop(s.remove(0));
        see(v);
    }
}

//# C25 join: two mutable ones
fn main() {
    let mut s: MS<Bx> = boxes();
    let (a, b) = ((&mut s).join(), (&mut s).join());
    for (a, b) in a.zip(b) {
        let c = &**a;
        *b = Box::new(5);
        black_box(*c);
    }
}

//# C25 join: mutable with shared
fn main() {
    let mut s: MS<Bx> = boxes();
    for (a, b) in (&mut s, &s).join() {
        let c = &**b;
        *a = Box::new(5);
        black_box(*c);
    }
}

//# C25 join: mutable with mutable
fn main() {
    let mut s: MS<Bx> = boxes();
    for (a, b) in (&mut s, &mut s).join() {
        let c = &**b;
        *a = Box::new(5);
        black_box(*c);
    }
}

//# C25 join: mutable with optional shared
fn main() {
    let mut s: MS<Bx> = boxes();
    for (a, b) in (&mut s, (&s).maybe()).join() {
        let c = &**b.unwrap();
        *a = Box::new(5);
        black_box(*c);
    }
}

//# C25 join: mutable items of a shared storage
fn main() {
    let s: MS<Bx> = boxes();
    let a = &**s.get(0).unwrap();
    let all: Vec<&mut Bx> = (&s).join().collect();
    for v in all {
        *v = Box::new(5);
    }
    black_box(*a);
}

//# C25 join: mutable iterator cloned
fn main() {
    let mut s: MS<Bx> = boxes();
    let mut it = (&mut s).join();
    let mut it2: JoinIter<&mut MS<Bx>> = it.clone();
    let (a, b) = (it.next().unwrap(), it2.next().unwrap());
    let c = &**a;
    *b = Box::new(5);
    black_box(*c);
}

//# C25 join: mutable parallel iterator cloned
fn main() {
    let mut s: MS<Bx> = boxes();
    let it = (&mut s).par_join();
    let it2: JoinParIter<&mut MS<Bx>> = it.clone();
    let (a, b): (Vec<&mut Bx>, Vec<&mut Bx>) = (it.collect(), it2.collect());
    for (a, b) in a.into_iter().zip(b) {
        let c = &**a;
        *b = Box::new(5);
        black_box(*c);
    }
}

//# C25 join: guarded twice
fn main() {
    let mut s: MS<Bx> = boxes();
    let (a, b) = (s.guard(), s.guard());
    for (a, mut b) in a.join().zip(b.join()) {
        let c = &**a.get();
        *b.get_mut() = Box::new(5);
        black_box(*c);
    }
}

//# C25 join: guarded view copied
fn main() {
    let mut s: MS<Bx> = boxes();
    let a: GuardedJoin<VecStorage<Bx>> = s.guard();
    let b = a.clone();
    for (a, mut b) in a.join().zip(b.join()) {
        let c = &**a.get();
        *b.get_mut() = Box::new(5);
        black_box(*c);
    }
}

//# C25 join: guarded and shared
fn main() {
    let mut s: MS<Bx> = boxes();
    for (mut a, b) in (s.guard(), &s).join() {
        let c = &**b;
        *a.get_mut() = Box::new(5);
        black_box(*c);
    }
}

//# C25 join: guards outlive the storage
fn main() {
    let g: Vec<_> = {
        let mut s: MS<Bx> = boxes();
        s.guard().join().collect()
    };
    see(g[0].get());
}

//# C25 join: guarded view made up
fn main() {
    let mut s: MS<Bx> = boxes();
    let r = &mut s;
    let (a, b) = (GuardedJoin(r), GuardedJoin(r));
    for (a, mut b) in a.join().zip(b.join()) {
        let c = &**a.get();
        *b.get_mut() = Box::new(5);
        black_box(*c);
    }
}

//# C25 join: guarded view of a shared storage
fn main() {
    let s: MS<Bx> = boxes();
    let r = &s;
    for (a, mut b) in (r, r.guard()).join() {
        let c = &**a;
        *b.get_mut() = Box::new(5);
        black_box(*c);
    }
}

//# C25 join: opened, and got at any index
fn main() {
    let s: MS<Bx> = boxes();
    let (_, access) = (&s).open();
    see(<&MS<Bx> as Join>::get(&access, 4));
}

//# C25 join: opened, and got twice
fn main() {
    let mut s: MS<Bx> = boxes();
    let (_, access) = (&mut s).open();
    let a = <&mut MS<Bx> as Join>::get(&access, 0);
    let b = <&mut MS<Bx> as Join>::get(&access, 0);
    let c = &**a;
    *b = Box::new(5);
    black_box(*c);
}

//# C25 join: iterator made of other parts
fn main() {
    let s: MS<Bx> = boxes();
    let mut other = BitSet::new();
    other.add(4);
    let (_, access) = (&s).open();
    let it = JoinIter::<&MS<Bx>>((&other).iter(), access);
    it.for_each(see);
}

//# C25 modified: twice
fn main() {
    let mut s: MF<Bx> = boxes();
    s.mark_modified(0);
    let a: Vec<Option<&mut Bx>> = s.modified_mut().join().collect();
    let b: Vec<Option<&mut Bx>> = s.modified_mut().join().collect();
    for (a, b) in a.into_iter().zip(b) {
        let c = &**a.unwrap();
        *b.unwrap() = Box::new(5);
        black_box(*c);
    }
}

//# C25 modified: shared storage, mutable items
fn main() {
    let s: MF<Bx> = boxes();
    s.mark_modified(0);
    let a = &**s.get(0).unwrap();
    for v in s.modified_mut().join() {
        *v.unwrap() = Box::new(5);
    }
    black_box(*a);
}

//# C25 modified: mutable items of the shared view
fn main() {
    let s: MF<Bx> = boxes();
    s.mark_modified(0);
    let a = &**s.get(0).unwrap();
    let all: Vec<Option<&mut Bx>> = s.modified().join().collect();
    for v in all {
        *v.unwrap() = Box::new(5);
    }
    black_box(*a);
}

//# C25 modified: removed meanwhile
fn main() {
    let mut s: MF<Bx> = boxes();
    s.mark_modified(0);
    let all: Vec<Option<&Bx>> = s.modified().join().collect();
    drop(s.remove(0));
    see(all[0].unwrap());
}

//# C25 modified: view cloned
fn main() {
    let mut s: MF<Bx> = boxes();
    s.mark_modified(0);
    let a: ModifiedJoinMut<Flagged<VecStorage<Bx>>> = s.modified_mut();
    let b = a.clone();
    for (a, b) in a.join().zip(b.join()) {
        let c = &**a.unwrap();
        *b.unwrap() = Box::new(5);
        black_box(*c);
    }
}

//# C25 modified: items outlive the storage
fn main() {
    let all: Vec<Option<&mut Bx>> = {
        let mut s: MF<Bx> = boxes();
        s.mark_modified(0);
        s.modified_mut().join().collect()
    };
    for v in all {
        set(v.unwrap());
    }
}

//# C25 modified: indexes, then cleared
fn main() {
    let mut s: MF<Bx> = boxes();
    s.mark_modified(0);
    let m = s.modified_indexes();
    s.clear_modified();
    drop(s);
    black_box(m.contains(0));
}

//# C25 entities: live set outlives the allocator
fn main() {
    let b = {
        let mut a = Allocator::new();
        a.allocate();
        a.live_bitset()
    };
    black_box(b.contains(0));
}

//# C25 entities: allocated during a join
fn main() {
    let mut a = Allocator::new();
    a.allocate();
    let b = a.live_bitset();
    for _ in 0..5000 {
        a.allocate();
    }
    black_box(b.contains(0));
}

//# C25 entities: join outlives the world
fn main() {
    let b = {
        let (w, _) = world();
        let b = w.entities().live_bitset();
        b
    };
    black_box(b.contains(0));
}

//# C25 world: entities, then merge
fn main() {
    let (mut w, _) = world();
    let e = w.entities();
    drop(w);
    black_box(e.create());
}

//# C25 world: reference outlives the read access
fn get<'a>(c: &ReadComponent<'a, Own>, e: Entity) -> &'a Own {
    c.get(e).unwrap()
}
fn main() {
    let (w, e) = world();
    let r = { get(&w.read_component(), e) };
    let c = &*r.0;
    w.write_component::<Own>().get_mut(e).unwrap().0 = Box::new(4);
    black_box(*c);
}

//# C25 world: reference outlives the write access
fn get<'a>(c: &mut WriteComponent<'a, Own>, e: Entity) -> &'a mut Own {
    c.get_mut(e).unwrap()
}
fn main() {
    let (w, e) = world();
    let (a, b) = (get(&mut w.write_component(), e), get(&mut w.write_component(), e));
    let c = &*a.0;
    b.0 = Box::new(4);
    black_box(*c);
}

//# C25 world: shared reference outlives the write access
fn get<'a>(c: &WriteComponent<'a, Own>, e: Entity) -> &'a Own {
    c.get(e).unwrap()
}
fn main() {
    let (w, e) = world();
    let r = { get(&w.write_component(), e) };
    let c = &*r.0;
    w.write_component::<Own>().get_mut(e).unwrap().0 = Box::new(4);
    black_box(*c);
}

//# C25 world: initialised reference outlives the write access
fn get<'a>(c: &mut WriteComponent<'a, Own>, e: Entity) -> &'a mut Own {
    c.get_or_default(e).unwrap()
}
fn main() {
    let (w, e) = world();
    let (a, b) = (get(&mut w.write_component(), e), get(&mut w.write_component(), e));
    let c = &*a.0;
    b.0 = Box::new(4);
    black_box(*c);
}

//# C25 world: guard outlives the write access
fn get<'a>(c: &mut WriteComponent<'a, Own>, e: Entity) -> GuardedElement<'a, VecStorage<Own>> {
    c.get_guard(e).unwrap()
}
fn main() {
    let (w, e) = world();
    let (a, mut b) = (get(&mut w.write_component(), e), get(&mut w.write_component(), e));
    let c = &*a.get().0;
    b.get_mut().0 = Box::new(4);
    black_box(*c);
}

//# C25 world: guarded join outlives the write access
fn get<'a>(c: &mut WriteComponent<'a, Own>) -> GuardedJoin<'a, VecStorage<Own>> {
    c.guard()
}
fn main() {
    let (w, _) = world();
    let (a, b) = (get(&mut w.write_component()), get(&mut w.write_component()));
    for (a, mut b) in a.join().zip(b.join()) {
        let c = &*a.get().0;
        b.get_mut().0 = Box::new(4);
        black_box(*c);
    }
}

//# C25 world: join items outlive the read access
fn get<'a>(c: &ReadComponent<'a, Own>) -> Vec<&'a Own> {
    c.join().collect()
}
fn main() {
    let (w, e) = world();
    let r = { get(&w.read_component()) };
    let c = &*r[0].0;
    w.write_component::<Own>().get_mut(e).unwrap().0 = Box::new(4);
    black_box(*c);
}

//# C25 world: join items outlive the write access
fn get<'a>(c: &mut WriteComponent<'a, Own>) -> Vec<&'a mut Own> {
    c.join().collect()
}
fn main() {
    let (w, _) = world();
    let (a, mut b) = (get(&mut w.write_component()), get(&mut w.write_component()));
    let c = &*a[0].0;
    b[0].0 = Box::new(4);
    black_box(*c);
}

//# C25 world: mutable join items of a shared write access
fn main() {
    let (w, e) = world();
    let c = w.write_component::<Own>();
    let a = &*c.get(e).unwrap().0;
    let all: Vec<&mut Own> = (&c).join().collect();
    for v in all {
        v.0 = Box::new(5);
    }
    black_box(*a);
}

//# C25 world: slice outlives the read access
fn get<'a>(c: &ReadComponent<'a, Dense>) -> &'a [Dense] {
    c.as_slice()
}
fn main() {
    let (w, _) = world();
    let r = { get(&w.read_component()) };
    let c = &*r[0].0;
    w.write_component::<Dense>().as_mut_slice()[0].0 = Box::new(4);
    black_box(*c);
}

//# C25 world: mutable slice outlives the write access
fn get<'a>(c: &mut WriteComponent<'a, Dense>) -> &'a mut [Dense] {
    c.as_mut_slice()
}
fn main() {
    let (w, _) = world();
    let (a, b) = (get(&mut w.write_component()), get(&mut w.write_component()));
    let c = &*a[0].0;
    b[0].0 = Box::new(4);
    black_box(*c);
}

//# C25 world: storage outlives the read access
fn get<'a>(c: &ReadComponent<'a, Own>) -> &'a MS<Own> {
    c.storage()
}
fn main() {
    let (w, e) = world();
    let r = { get(&w.read_component()) };
    let c = &*r.get(e.index()).unwrap().0;
    w.write_component::<Own>().get_mut(e).unwrap().0 = Box::new(4);
    black_box(*c);
}

//# C25 world: storage outlives the write access
fn get<'a>(c: &mut WriteComponent<'a, Own>) -> &'a mut MS<Own> {
    c.storage_mut()
}
fn main() {
    let (w, e) = world();
    let (a, b) = (get(&mut w.write_component()), get(&mut w.write_component()));
    let c = &*a.get(e.index()).unwrap().0;
    b.get_mut(e.index()).unwrap().0 = Box::new(4);
    black_box(*c);
}

//# C25 world: mask outlives the read access
fn get<'a>(c: &ReadComponent<'a, Own>) -> &'a BitSet {
    c.mask()
}
fn main() {
    let (w, _) = world();
    let m = { get(&w.read_component()) };
    let mut c = w.write_component::<Own>();
    for _ in 0..200 {
        c.insert(w.entities().create(), Own::default()).unwrap();
    }
    black_box(m.contains(0));
}

//# C25 world: modified items outlive the write access
fn get<'a>(c: &mut WriteComponent<'a, Flag>) -> Vec<Option<&'a mut Flag>> {
    c.modified_mut().join().collect()
}
fn main() {
    let (w, e) = world();
    w.read_component::<Flag>().mark_modified(e).unwrap();
    let (a, b) = (get(&mut w.write_component()), get(&mut w.write_component()));
    for (a, b) in a.into_iter().zip(b) {
        let c = &*a.unwrap().0;
        b.unwrap().0 = Box::new(4);
        black_box(*c);
    }
}

//# C25 world: modified items outlive the read access
fn get<'a>(c: &ReadComponent<'a, Flag>) -> Vec<Option<&'a Flag>> {
    c.modified().join().collect()
}
fn main() {
    let (w, e) = world();
    w.read_component::<Flag>().mark_modified(e).unwrap();
    let a = { get(&w.read_component()) };
    let c = &*a[0].unwrap().0;
    w.write_component::<Flag>().get_mut(e).unwrap().0 = Box::new(4);
    black_box(*c);
}

//# C25 world: read access as a temporary
fn main() {
    let (w, e) = world();
    let r = w.read_component::<Own>().get(e).unwrap();
    w.write_component::<Own>().get_mut(e).unwrap().0 = Box::new(4);
    black_box(*r.0);
}

//# C25 world: deleting during a read access
fn main() {
    let (mut w, e) = world();
    let c = w.read_component::<Own>();
    let r = c.get(e).unwrap();
    w.delete_entity(e).unwrap();
    see(&r.0);
}

//# C25 world: merging during a read access
fn main() {
    let (mut w, e) = world();
    w.entities().delete(e).unwrap();
    let c = w.read_component::<Own>();
    let r = c.get(e).unwrap();
    w.merge();
    see(&r.0);
}

//# C25 world: registering again during a read access
fn main() {
    let (mut w, e) = world();
    let c = w.read_component::<Own>();
    let r = c.get(e).unwrap();
    w.insert_component::<Own>();
    see(&r.0);
}

//# C25 world: removing a component during direct access
fn main() {
    let (mut w, e) = world();
    let c = w.get_component_mut::<Own>();
    let r = c.get(e).unwrap();
    w.remove_component::<Own>();
    see(&r.0);
}

//# C25 world: direct access twice
fn main() {
    let (mut w, e) = world();
    let mut a = w.get_component_mut::<Own>();
    let mut b = w.get_component_mut::<Own>();
    let (a, b) = (a.get_mut(e).unwrap(), b.get_mut(e).unwrap());
    let c = &*a.0;
    b.0 = Box::new(3);
    black_box(*c);
}

//# C25 world: direct access of a shared world
fn change(w: &World, e: Entity) {
    w.get_component_mut::<Own>().get_mut(e).unwrap().0 = Box::new(3);
}
fn main() {
    let (w, e) = world();
    let r = w.read_component::<Own>();
    let c = &*r.get(e).unwrap().0;
    change(&w, e);
    black_box(*c);
}

//# C25 world: deleting in a shared world
fn change(w: &World, e: Entity) {
    w.delete_entity(e).unwrap();
}
fn main() {
    let (w, e) = world();
    let r = w.read_component::<Own>();
    let c = &*r.get(e).unwrap().0;
    change(&w, e);
    black_box(*c);
}

//# C25 world: merging a shared world
fn change(w: &World, e: Entity) {
    w.entities().delete(e).unwrap();
    w.merge();
}
fn main() {
    let (w, e) = world();
    let r = w.read_component::<Own>();
    let c = &*r.get(e).unwrap().0;
    change(&w, e);
    black_box(*c);
}

//# C25 world: access outlives the world
fn main() {
    let c = {
        let (w, _) = world();
        w.read_component::<Own>()
    };
    black_box(c.join().count());
}

//# C25 world: fetched access outlives the world
fn main() {
    let c = {
        let (w, _) = world();
        w.fetch::<(Entities, WriteComponent<Own>)>()
    };
    black_box((&c.1).join().count());
}

//# C25 world: write access cloned
fn main() {
    let (w, e) = world();
    let a: WriteComponent<Own> = w.write_component();
    let mut b = a.clone();
    let c = &*a.get(e).unwrap().0;
    b.get_mut(e).unwrap().0 = Box::new(3);
    black_box(*c);
}

//# C25 world: get_mut of a shared access
fn change(a: &WriteComponent<Own>, e: Entity) {
    a.get_mut(e).unwrap().0 = Box::new(3);
}
fn main() {
    let (w, e) = world();
    let a = w.write_component::<Own>();
    let c = &*a.get(e).unwrap().0;
    change(&a, e);
    black_box(*c);
}

//# C25 world: writing through a read access
fn main() {
    let (w, e) = world();
    let mut a = w.read_component::<Own>();
    let b = w.read_component::<Own>();
    let c = &*b.get(e).unwrap().0;
    a.get_mut(e).unwrap().0 = Box::new(3);
    black_box(*c);
}

//# C25 world: mutable join over a read access
fn main() {
    let (w, e) = world();
    let mut a = w.read_component::<Own>();
    let b = w.read_component::<Own>();
    let c = &*b.get(e).unwrap().0;
    (&mut a).join().for_each(|v| v.0 = Box::new(3));
    black_box(*c);
}

//# C25 resource: reference outlives the access
fn get<'a>(w: &'a World) -> &'a String {
    &*w.read_resource::<String>()
}
fn main() {
    let (w, _) = world();
    let r = get(&w);
    let b = r.as_bytes();
    *w.write_resource::<String>() = String::from("other");
    black_box(b[0]);
}

//# C25 resource: reference with the lifetime of the world
fn get<'a>(r: &ReadResource<'a, String>) -> &'a String {
    &**r
}
fn main() {
    let (w, _) = world();
    let r = { get(&w.read_resource::<String>()) };
    let b = r.as_bytes();
    *w.write_resource::<String>() = String::from("other");
    black_box(b[0]);
}

//# C25 resource: mutable reference with the lifetime of the world
fn get<'a>(r: &mut WriteResource<'a, String>) -> &'a mut String {
    &mut **r
}
fn main() {
    let (w, _) = world();
    let (a, b) = (get(&mut w.write_resource::<String>()), get(&mut w.write_resource::<String>()));
    let c = a.as_bytes();
    *b = String::from("other");
    black_box(c[0]);
}

//# C25 resource: written through a read access
fn main() {
    let (w, _) = world();
    let mut a = w.read_resource::<String>();
    let b = w.read_resource::<String>();
    let c = b.as_bytes();
    *a = String::from("other");
    black_box(c[0]);
}

//# C25 resource: replaced during an access
fn main() {
    let (mut w, _) = world();
    let a = w.read_resource::<String>();
    w.insert_resource(String::from("other"));
    black_box(a.as_bytes()[0]);
}

//# C25 resource: removed during an access
fn main() {
    let (mut w, _) = world();
    let a = w.get_resource_mut::<String>();
    w.remove_resource::<String>();
    black_box(a.as_bytes()[0]);
}

//# C25 resource: direct access twice
fn main() {
    let (mut w, _) = world();
    let a = w.get_resource_mut::<String>();
    let b = w.get_resource_mut::<String>();
    let c = a.as_bytes();
    *b = String::from("other");
    black_box(c[0]);
}

//# C25 resource: direct access of a shared world
fn change(w: &World) {
    *w.get_resource_mut::<String>() = String::from("other");
}
fn main() {
    let (w, _) = world();
    let a = w.read_resource::<String>();
    let b = a.as_bytes();
    change(&w);
    black_box(b[0]);
}

//# C25 resource: cloned write access
fn main() {
    let (w, _) = world();
    let a: WriteResource<String> = w.write_resource::<String>();
    let mut b: WriteResource<String> = a.clone();
    let c = a.as_bytes();
    *b = String::from("other");
    black_box(c[0]);
}

//# C25 set: reference with the lifetime of the set
fn get<'a>(r: &Read<'a, String>) -> &'a String {
    &**r
}
fn main() {
    let mut s = ResourceSet::new();
    s.insert(String::from("x"));
    let r = { get(&s.fetch::<Read<String>>()) };
    let b = r.as_bytes();
    *s.borrow_mut::<String>() = String::from("other");
    black_box(b[0]);
}

//# C25 set: mutable reference with the lifetime of the set
fn get<'a>(r: &mut Write<'a, String>) -> &'a mut String {
    &mut **r
}
fn main() {
    let mut s = ResourceSet::new();
    s.insert(String::from("x"));
    let (a, b) = (get(&mut s.fetch::<Write<String>>()), get(&mut s.fetch::<Write<String>>()));
    let c = a.as_bytes();
    *b = String::from("other");
    black_box(c[0]);
}

//# C25 set: shared reference from a write access
fn get<'a>(r: &Write<'a, String>) -> &'a String {
    &**r
}
fn main() {
    let mut s = ResourceSet::new();
    s.insert(String::from("x"));
    let a = { get(&s.fetch::<Write<String>>()) };
    let c = a.as_bytes();
    *s.borrow_mut::<String>() = String::from("other");
    black_box(c[0]);
}

//# C25 set: removed during a borrow
fn main() {
    let mut s = ResourceSet::new();
    s.insert(String::from("x"));
    let b = s.borrow::<String>();
    s.remove::<String>();
    black_box(b.as_bytes()[0]);
}

//# C25 set: replaced during a fetch
fn main() {
    let mut s = ResourceSet::new();
    s.insert(String::from("x"));
    let b = s.fetch::<Read<String>>();
    s.insert(String::from("y"));
    black_box(b.as_bytes()[0]);
}

//# C25 set: get_mut twice
fn main() {
    let mut s = ResourceSet::new();
    s.insert(String::from("x"));
    let a = s.get_mut::<String>();
    let b = s.get_mut::<String>();
    let c = a.as_bytes();
    *b = String::from("other");
    black_box(c[0]);
}

//# C25 set: get_mut of a shared set
fn change(s: &ResourceSet) {
    *s.get_mut::<String>() = String::from("y");
}
fn main() {
    let mut s = ResourceSet::new();
    s.insert(String::from("x"));
    let b = s.borrow::<String>();
    let c = b.as_bytes();
    change(&s);
    black_box(c[0]);
}

//# C25 set: changed while shared
fn change(s: &ResourceSet) {
    s.insert(String::from("y"));
}
fn main() {
    let mut s = ResourceSet::new();
    s.insert(String::from("x"));
    let b = s.borrow::<String>();
    change(&s);
    black_box(b.as_bytes()[0]);
}

//# C25 set: borrow outlives the set
fn main() {
    let b = {
        let mut s = ResourceSet::new();
        s.insert(String::from("x"));
        s.borrow::<String>()
    };
    black_box(b.as_bytes()[0]);
}

//# C25 set: fetch outlives the set
fn main() {
    let b = {
        let mut s = ResourceSet::new();
        s.insert(String::from("x"));
        s.fetch::<Write<String>>()
    };
    black_box(b.as_bytes()[0]);
}

//# C25 set: read access turned into a write access
fn main() {
    let mut s = ResourceSet::new();
    s.insert(String::from("x"));
    let mut a = s.fetch::<Read<String>>();
    let b = s.fetch::<Read<String>>();
    let c = b.as_bytes();
    *a = String::from("other");
    black_box(c[0]);
}

//# C25 set: types of short lifetime
fn main() {
    let mut s = ResourceSet::new();
    {
        let x = String::from("short");
        s.insert(&x);
    }
    black_box(s.borrow::<&'static String>().as_bytes()[0]);
}

//# C25 world: component types of short lifetime
struct Short<'a>(&'a String);
impl<'a> Component for Short<'a> {
    type Storage = VecStorage<Self>;
}
fn main() {
    let (mut w, e) = world();
    {
        let x = String::from("short");
        w.insert_component::<Short>();
        w.get_component_mut().insert(e, Short(&x)).unwrap();
    }
    black_box(w.read_component::<Short<'static>>().get(e).unwrap().0.as_bytes()[0]);
}

//# C25 make_sync: get_mut through a shared reference
fn change(m: &MakeSync<String>) {
    *m.get_mut() = String::from("other");
}
fn main() {
    let m = MakeSync::new(String::from("x"));
    let c = m.get().as_bytes();
    change(&m);
    black_box(c[0]);
}

//# C25 make_sync: two mutable references
fn main() {
    let mut m = MakeSync::new(String::from("x"));
    let (a, b) = (m.get_mut(), m.get_mut());
    let c = a.as_bytes();
    *b = String::from("other");
    black_box(c[0]);
}

//# C25 make_sync: taken apart during a borrow
fn main() {
    let m = MakeSync::new(String::from("x"));
    let c = m.get();
    drop(m.into_inner());
    black_box(c.as_bytes()[0]);
}

//# C25 component set: removed during a borrow
fn main() {
    let mut s = AnyComponentSet::new();
    s.insert(Own::default());
    let a = s.get::<Own>().unwrap();
    s.remove::<Own>();
    see(&a.0);
}

//# C25 component set: two mutable references
fn main() {
    let mut s = AnyComponentSet::new();
    s.insert(Own::default());
    let a = s.get_mut::<Own>().unwrap();
    let b = s.get_mut::<Own>().unwrap();
    let c = &*a.0;
    b.0 = Box::new(4);
    black_box(*c);
}

//# C25 component set: mutable reference from a shared set
fn change(s: &AnyComponentSet) {
    s.get_mut::<Own>().unwrap().0 = Box::new(4);
}
fn main() {
    let mut s = AnyComponentSet::new();
    s.insert(Own::default());
    let a = s.get::<Own>().unwrap();
    let c = &*a.0;
    change(&s);
    black_box(*c);
}

//# C25 component set: used after it was given away
fn main() {
    let (mut w, e) = world();
    let mut s = AnyComponentSet::new();
    s.insert(Own::default());
    s.insert_into_world(&mut w, e).unwrap();
    s.insert_into_world(&mut w, e).unwrap();
}

//# C25 component set: used after merging
fn main() {
    let (mut s, mut t) = (AnyComponentSet::new(), AnyComponentSet::new());
    s.insert(Own::default());
    t.merge(s);
    drop(s.remove::<Own>());
}

//# C25 cloning component set: two mutable references
fn main() {
    let mut s = AnyCloneComponentSet::new();
    s.insert(Own::default());
    let a = s.get_mut::<Own>().unwrap();
    let b = s.get_mut::<Own>().unwrap();
    let c = &*a.0;
    b.0 = Box::new(4);
    black_box(*c);
}

//# C26 vec storage: not Sync, shared
fn main() {
    let s: MS<Unshared> = filled(Unshared::new);
    both(|| s.get(0).unwrap().poke(), || s.get(0).unwrap().poke());
}

//# C26 dense storage: not Sync, shared
fn main() {
    let s: MD<Unshared> = filled(Unshared::new);
    both(|| s.get(0).unwrap().poke(), || s.get(0).unwrap().poke());
}

//# C26 hash map storage: not Sync, shared
fn main() {
    let s: MH<Unshared> = filled(Unshared::new);
    both(|| s.get(0).unwrap().poke(), || s.get(0).unwrap().poke());
}

//# C26 flagged storage: not Sync, shared
fn main() {
    let s: MF<Unshared> = filled(Unshared::new);
    both(|| s.get(0).unwrap().poke(), || s.get(0).unwrap().poke());
}

//# C26 vec storage: not Send, sent
fn main() {
    let c = Counted::default();
    let s: MS<Counted> = filled(|_| c.clone());
    both(|| c.poke(), move || s.get(0).unwrap().poke());
}

//# C26 dense storage: not Send, sent
fn main() {
    let c = Counted::default();
    let s: MD<Counted> = filled(|_| c.clone());
    both(|| c.poke(), move || s.get(0).unwrap().poke());
}

//# C26 hash map storage: not Send, sent
fn main() {
    let c = Counted::default();
    let s: MH<Counted> = filled(|_| c.clone());
    both(|| c.poke(), move || s.get(0).unwrap().poke());
}

//# C26 flagged storage: not Send, sent
fn main() {
    let c = Counted::default();
    let s: MF<Counted> = filled(|_| c.clone());
    both(|| c.poke(), move || s.get(0).unwrap().poke());
}

//# C26 vec storage: not Send, borrowed mutably
fn main() {
    let mut s: MS<Homely> = filled(Homely::new);
    elsewhere(|| s.get_mut(0).unwrap().poke());
}

//# C26 dense storage: not Send, borrowed mutably
fn main() {
    let mut s: MD<Homely> = filled(Homely::new);
    elsewhere(|| s.as_mut_slice()[0].poke());
}

//# C26 vec storage: not Send, mutable join in another thread
fn main() {
    let mut s: MS<Homely> = filled(Homely::new);
    let it = (&mut s).join();
    elsewhere(move || it.for_each(|v| v.poke()));
}

//# C26 dense storage: not Send, mutable join in another thread
fn main() {
    let mut s: MD<Homely> = filled(Homely::new);
    let it = (&mut s).join();
    elsewhere(move || it.for_each(|v| v.poke()));
}

//# C26 hash map storage: not Send, mutable join in another thread
fn main() {
    let mut s: MH<Homely> = filled(Homely::new);
    let it = (&mut s).join();
    elsewhere(move || it.for_each(|v| v.poke()));
}

//# C26 flagged storage: not Send, mutable join in another thread
fn main() {
    let mut s: MF<Homely> = filled(Homely::new);
    let it = (&mut s).join();
    elsewhere(move || it.for_each(|v| v.poke()));
}

//# C26 vec storage: not Send, guard in another thread
fn main() {
    let mut s: MS<Homely> = filled(Homely::new);
    let mut g = s.get_guard(0).unwrap();
    elsewhere(move || g.get_mut().poke());
}

//# C26 dense storage: not Send, guard in another thread
fn main() {
    let mut s: MD<Homely> = filled(Homely::new);
    let mut g = s.get_guard(0).unwrap();
    elsewhere(|| g.get_mut().poke());
}

//# C26 vec storage: not Sync, guard shared
fn main() {
    let mut s: MS<Unshared> = filled(Unshared::new);
    let g = s.get_guard(0).unwrap();
    both(|| g.get().poke(), || g.get().poke());
}

//# C26 hash map storage: not Sync, guard sent
fn main() {
    let mut s: MH<Unshared> = filled(Unshared::new);
    let g = s.get_guard(0).unwrap();
    let h = &g;
    both(|| h.get().poke(), move || h.get().poke());
}

//# C26 vec storage: not Send, modified items in another thread
fn main() {
    let mut s: MF<Homely> = filled(Homely::new);
    s.mark_modified(0);
    let it = s.modified_mut().join();
    elsewhere(move || it.flatten().for_each(|v| v.poke()));
}

//# C26 join: not Sync, iterator in another thread
fn main() {
    let s: MS<Unshared> = filled(Unshared::new);
    let it = (&s).join();
    both(|| s.get(0).unwrap().poke(), move || it.for_each(|v| v.poke()));
}

//# C26 parallel join: not Sync
fn main() {
    let s: MS<Unshared> = filled(Unshared::new);
    let v = s.get(0).unwrap();
    both(|| v.poke(), || {});
    (&s, &s).par_join().for_each(|(a, _)| a.poke());
}

//# C26 parallel join: not Sync, one item for all
fn main() {
    let c = Counted::default();
    let s: MS<Counted> = (0..2).map(|_| filled(|_| c.clone())).last().unwrap();
    pool().install(|| (&s).par_join().for_each(|v| (0..50).for_each(|_| v.poke())));
    c.poke();
}
fn pool() -> rayon::ThreadPool {
    rayon::ThreadPoolBuilder::new().num_threads(2).build().unwrap()
}

//# C26 parallel join: not Send, mutable
fn main() {
    let mut s: MS<Homely> = filled(Homely::new);
    let pool = rayon::ThreadPoolBuilder::new().num_threads(2).build().unwrap();
    let r = &mut s;
    pool.install(move || r.par_join().for_each(|v| v.poke()));
}

//# C26 parallel join: not Send, mutable, in the global pool
fn main() {
    let mut s: MS<Homely> = filled(Homely::new);
    (&mut s).par_join().for_each(|v| v.poke());
}

//# C26 parallel join: not Send, optional
fn main() {
    let mut s: MD<Homely> = filled(Homely::new);
    let mut b = BitSet::new();
    b.add(0);
    (&b, (&mut s).maybe()).par_join().for_each(|(_, v)| v.unwrap().poke());
}

//# C26 parallel join: not Send, without a bound
fn main() {
    let mut s: MH<Homely> = filled(Homely::new);
    (&mut s).par_join_unconstrained().for_each(|v| v.poke());
}

//# C26 parallel join: not Send, made directly
fn main() {
    let mut s: MS<Homely> = filled(Homely::new);
    JoinParIter::new(&mut s).unwrap().for_each(|v| v.poke());
}

//# C26 parallel join: not Send, made directly without a bound
fn main() {
    let mut s: MS<Homely> = filled(Homely::new);
    JoinParIter::new_unconstrained(&mut s).for_each(|v| v.poke());
}

//# C26 parallel join: not Send, guarded
fn main() {
    let mut s: MS<Homely> = filled(Homely::new);
    s.guard().par_join().for_each(|mut g| g.get_mut().poke());
}

//# C26 parallel join: not Send, modified
fn main() {
    let mut s: MF<Homely> = filled(Homely::new);
    s.mark_modified(0);
    s.modified_mut().par_join().for_each(|v| v.unwrap().poke());
}

//# C26 parallel join: guarded, not Sync
fn main() {
    let c = Counted::default();
    let mut s: MS<Counted> = filled(|_| c.clone());
    s.guard().par_join().for_each(|g| (0..50).for_each(|_| g.get().poke()));
    c.poke();
}

//# C26 set: not Send
fn main() {
    let mut s = ResourceSet::new();
    let c = Counted::default();
    s.insert(c.clone());
    both(|| c.poke(), || s.borrow_mut::<Counted>().poke());
}

//# C26 set: not Send, removed elsewhere
fn main() {
    let mut s = ResourceSet::new();
    s.insert(Homely::new(0));
    elsewhere(move || drop(s.remove::<Homely>()));
}

//# C26 set: not Send, fetched elsewhere
fn main() {
    let mut s = ResourceSet::new();
    s.insert(Homely::new(0));
    elsewhere(|| s.fetch::<Write<Homely>>().poke());
}

//# C26 set: not Sync, borrowed
fn main() {
    let mut s = ResourceSet::new();
    s.insert(Unshared::new(0));
    both(|| s.borrow::<Unshared>().poke(), || s.borrow::<Unshared>().poke());
}

//# C26 set: not Sync, borrow shared
fn main() {
    let mut s = ResourceSet::new();
    s.insert(Unshared::new(0));
    let b = s.borrow_mut::<Unshared>();
    both(|| b.poke(), || b.poke());
}

//# C26 set: not Sync, fetched
fn main() {
    let mut s = ResourceSet::new();
    s.insert(Unshared::new(0));
    both(|| s.fetch::<Read<Unshared>>().poke(), || s.fetch::<Read<Unshared>>().poke());
}

//# C26 set: not Sync, write access shared
fn main() {
    let mut s = ResourceSet::new();
    s.insert(Unshared::new(0));
    let b = s.fetch::<Write<Unshared>>();
    both(|| b.poke(), || b.poke());
}

//# C26 make_sync: not Sync
fn main() {
    let m = MakeSync::new(Unshared::new(0));
    both(|| m.get().poke(), || m.get().poke());
}

//# C26 make_sync: not Send, sent
fn main() {
    let c = Counted::default();
    let m = MakeSync::new(c.clone());
    both(|| c.poke(), move || m.into_inner().poke());
}

//# C26 make_sync: not Send, borrowed mutably elsewhere
fn main() {
    let mut m = MakeSync::new(Homely::new(0));
    elsewhere(|| m.get_mut().poke());
}

//# C26 make_sync: inert reference used mutably
fn main() {
    let m = MakeSync::new(Unshared::new(0));
    both(|| m.get_mut().poke(), || m.get_mut().poke());
}

//# C26 make_sync: dereferenced
fn main() {
    let m = MakeSync::new(Unshared::new(0));
    both(|| (*m).poke(), || (*m).poke());
}

//# C26 make_sync: inner field
fn main() {
    let m = MakeSync::new(Unshared::new(0));
    both(|| (m.0).poke(), || (m.0).poke());
}

//# C26 world: resource not Send
fn main() {
    let (mut w, _) = world();
    w.insert_resource(Homely::new(0));
    elsewhere(|| w.write_resource::<Homely>().poke());
}

//# C26 world: resource not Send, fetched
fn main() {
    let (mut w, _) = world();
    w.insert_resource(Homely::new(0));
    elsewhere(|| w.fetch::<WriteResource<Homely>>().poke());
}

//# C26 world: resource not Sync
fn main() {
    let (mut w, _) = world();
    w.insert_resource(Unshared::new(0));
    both(|| w.read_resource::<Unshared>().poke(), || w.read_resource::<Unshared>().poke());
}

//# C26 world: resource not Sync, fetched
fn main() {
    let (mut w, _) = world();
    w.insert_resource(Unshared::new(0));
    both(|| w.fetch::<ReadResource<Unshared>>().poke(), || w.fetch::<ReadResource<Unshared>>().poke());
}

//# C26 world: resource not Sync, write access shared
fn main() {
    let (mut w, _) = world();
    w.insert_resource(Unshared::new(0));
    let b = w.write_resource::<Unshared>();
    both(|| b.poke(), || b.poke());
}

//# C26 world: component not Send
fn main() {
    let (mut w, e) = world();
    w.insert_component::<Homely>();
    w.get_component_mut::<Homely>().insert(e, Homely::new(0)).unwrap();
    elsewhere(|| w.write_component::<Homely>().get_mut(e).unwrap().poke());
}

//# C26 world: component not Send, through its storage
fn main() {
    let (mut w, e) = world();
    w.insert_component::<Homely>();
    w.get_component_mut::<Homely>().storage_mut().insert(e.index(), Homely::new(0));
    elsewhere(|| w.delete_entity(e).unwrap());
}

//# C26 world: component not Sync
fn main() {
    let (mut w, e) = world();
    w.insert_component::<Unshared>();
    w.get_component_mut::<Unshared>().insert(e, Unshared::new(0)).unwrap();
    let f = || w.read_component::<Unshared>().get(e).unwrap().poke();
    both(f, f);
}

//# C26 world: component not Sync, fetched
fn main() {
    let (mut w, e) = world();
    w.insert_component::<Unshared>();
    w.get_component_mut::<Unshared>().insert(e, Unshared::new(0)).unwrap();
    let f = || w.fetch::<ReadComponent<Unshared>>().get(e).unwrap().poke();
    both(f, f);
}

//# C26 world: component not Sync, write access shared
fn main() {
    let (mut w, e) = world();
    w.insert_component::<Unshared>();
    w.get_component_mut::<Unshared>().insert(e, Unshared::new(0)).unwrap();
    let c = w.write_component::<Unshared>();
    both(|| c.get(e).unwrap().poke(), || c.get(e).unwrap().poke());
}

//# C26 world: component not Sync, parallel join over the write access
fn main() {
    let (mut w, _) = world();
    w.insert_component::<Unshared>();
    let c = w.write_component::<Unshared>();
    (&c).par_join().for_each(|v| v.poke());
}

//# C26 component set: not Send
fn main() {
    let mut s = AnyComponentSet::new();
    s.insert(Homely::new(0));
    elsewhere(move || drop(s));
}

//# C26 component set: not Sync
fn main() {
    let mut s = AnyComponentSet::new();
    s.insert(Unshared::new(0));
    both(|| s.get::<Unshared>().unwrap().poke(), || s.get::<Unshared>().unwrap().poke());
}

//# C26 component set: counted, sent
fn main() {
    let mut s = AnyComponentSet::new();
    let c = Counted::default();
    s.insert(c.clone());
    both(|| c.poke(), move || drop(s));
}

//# C26 cloning component set: not Send
fn main() {
    let mut s = AnyCloneComponentSet::new();
    let c = Counted::default();
    s.insert(c.clone());
    both(|| c.poke(), move || drop(s));
}

//# C26 cloning component set: not Sync
#[derive(Clone)]
struct Un(Unshared2);
#[derive(Clone)]
struct Unshared2(Cell<u64>);
impl Component for Un {
    type Storage = VecStorage<Self>;
}
fn main() {
    let mut s = AnyCloneComponentSet::new();
    s.insert(Un(Unshared2(Cell::new(0))));
    let f = || (s.get::<Un>().unwrap().0).0.set(1);
    both(f, f);
}

//# C26 pool: closures that may not be sent
fn main() {
    let c = Counted::default();
    let d = c.clone();
    Spawn.join(move || d.poke(), || c.poke());
}

//# C26 pool: rayon, closures that may not be sent
fn main() {
    let c = Counted::default();
    let d = c.clone();
    RayonPool.join(move || (0..50).for_each(|_| d.poke()), || (0..50).for_each(|_| c.poke()));
}

//# C26 pool: results that may not be sent
fn main() {
    let (_, mut b) = Spawn.join(|| (), || Homely::new(0));
    b.poke();
}

//# C26 pool: rayon, results that may not be sent
fn main() {
    let (mut a, mut b) = RayonPool.join(|| Homely::new(0), || Homely::new(0));
    a.poke();
    b.poke();
}

//# C26 systems: not Send, pair
//+ systems
fn main() {
    let c = Counted::default();
    let mut s = Par::new(Not(c.clone()), Not(c));
    s.run(&Spawn, ()).unwrap();
}

//# C26 systems: not Send, head of a pair
//+ systems
fn main() {
    let c = Counted::default();
    let mut s = Par::new(Not(c.clone()), Fine);
    s.run(&Spawn, ()).unwrap();
    c.poke();
}

//# C26 systems: not Send, tail of a pair
//+ systems
fn main() {
    let c = Counted::default();
    let mut s = Par::new(Fine, Not(c.clone()));
    s.run(&Spawn, ()).unwrap();
    c.poke();
}

//# C26 systems: not Send, list
//+ systems
fn main() {
    let c = Counted::default();
    let mut s = ParList(vec![Not(c.clone()), Not(c.clone()), Not(c)]);
    s.run(&Spawn, ()).unwrap();
}

//# C26 systems: not Send, parallelised
//+ systems
fn main() {
    let c = Counted::default();
    let mut s = parallelize::<(), _>(vec![Not(c.clone()), Not(c.clone()), Not(c)]);
    s.run(&Spawn, ()).unwrap();
}

//# C26 systems: not Send, sequence within a pair
//+ systems
fn main() {
    let c = Counted::default();
    let mut s = Par::new(Seq::new(Not(c.clone()), Not(c.clone())), SeqList(vec![Not(c.clone()), Not(c)]));
    s.run(&Spawn, ()).unwrap();
}

//# C26 systems: not Send, boxed
//+ systems
fn main() {
    let c = Counted::default();
    let mut s = Par::new(Box::new(Not(c.clone())), Box::new(Not(c)));
    s.run(&Spawn, ()).unwrap();
}

//# C26 systems: arguments that may not be sent, pair
//+ arguments
fn main() {
    let u = Unshared::new(0);
    let mut s = Par::new(Pokes, Pokes);
    s.run(&Spawn, &u).unwrap();
}

//# C26 systems: arguments that may not be sent, list
//+ arguments
fn main() {
    let u = Unshared::new(0);
    let mut s = ParList(vec![Pokes, Pokes, Pokes]);
    s.run(&Spawn, &u).unwrap();
}

//# C26 systems: errors that may not be sent, pair
//+ errors
fn main() {
    let mut s = Par::new(Fails, Fails);
    s.run(&Spawn, ()).unwrap_err().0.poke();
}

//# C26 systems: errors that may not be sent, list
//+ errors
fn main() {
    let mut s = ParList(vec![Fails, Fails, Fails]);
    s.run(&Spawn, ()).unwrap_err().0.poke();
}

//# C26 systems: pool that may not be shared, pair
//+ pool
fn main() {
    let mut s = Par::new(Uses, Uses);
    s.run(&Mine(Unshared::new(0)), ()).unwrap();
}

//# C26 systems: pool that may not be shared, list
//+ pool
fn main() {
    let mut s = ParList(vec![Uses, Uses]);
    s.run(&Mine(Unshared::new(0)), ()).unwrap();
}

//= systems
pub struct Not(Counted);
impl System<()> for Not {
    type Resources = RwResources<u8>;
    type Pool = Spawn;
    type Error = std::convert::Infallible;
    fn check_resources(&self) -> Result<RwResources<u8>, ResourceConflict> {
        Ok(RwResources::default())
    }
    fn run(&mut self, _: &Spawn, _: ()) -> Result<(), std::convert::Infallible> {
        self.0.poke();
        Ok(())
    }
}
/// May run anywhere.
pub struct Fine;
impl System<()> for Fine {
    type Resources = RwResources<u8>;
    type Pool = Spawn;
    type Error = std::convert::Infallible;
    fn check_resources(&self) -> Result<RwResources<u8>, ResourceConflict> {
        Ok(RwResources::default())
    }
    fn run(&mut self, _: &Spawn, _: ()) -> Result<(), std::convert::Infallible> {
        Ok(())
    }
}

//= arguments
pub struct Pokes;
impl<'a> System<&'a Unshared> for Pokes {
    type Resources = RwResources<u8>;
    type Pool = Spawn;
    type Error = std::convert::Infallible;
    fn check_resources(&self) -> Result<RwResources<u8>, ResourceConflict> {
        Ok(RwResources::default())
    }
    fn run(&mut self, _: &Spawn, u: &'a Unshared) -> Result<(), std::convert::Infallible> {
        u.poke();
        Ok(())
    }
}

//= errors
pub struct Fails;
#[derive(Debug)]
pub struct Err_(pub Remote);
pub struct Remote(Homely);
impl std::fmt::Debug for Remote {
    fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
        Ok(())
    }
}
impl Remote {
    pub fn poke(&mut self) {
        self.0.poke();
    }
}
impl SystemError for Err_ {
    fn combine(mut self, mut o: Err_) -> Err_ {
        self.0.poke();
        o.0.poke();
        self
    }
}
impl System<()> for Fails {
    type Resources = RwResources<u8>;
    type Pool = Spawn;
    type Error = Err_;
    fn check_resources(&self) -> Result<RwResources<u8>, ResourceConflict> {
        Ok(RwResources::default())
    }
    fn run(&mut self, _: &Spawn, _: ()) -> Result<(), Err_> {
        Err(Err_(Remote(Homely::new(0))))
    }
}

//= pool
pub struct Uses;
pub struct Mine(pub Unshared);
impl Pool for Mine {
    fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        Spawn.join(a, b)
    }
}
impl System<()> for Uses {
    type Resources = RwResources<u8>;
    type Pool = Mine;
    type Error = std::convert::Infallible;
    fn check_resources(&self) -> Result<RwResources<u8>, ResourceConflict> {
        Ok(RwResources::default())
    }
    fn run(&mut self, p: &Mine, _: ()) -> Result<(), std::convert::Infallible> {
        p.0.poke();
        Ok(())
    }
}
