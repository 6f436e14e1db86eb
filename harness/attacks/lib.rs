//! What the attack programs share.
#![forbid(unsafe_code)]
pub use goggles::{
    entity::Allocator,
    hibitset::{BitSet, BitSetAll, BitSetLike},
    join::{BitSetConstrained, MaybeJoin},
    masked::{GuardedElement, GuardedJoin, ModifiedJoin, ModifiedJoinMut},
    par, parallelize,
    par_join::JoinParIter,
    rayon::{self, prelude::*},
    seq,
    system::{ParList, SeqList},
    *,
};
pub use std::{
    cell::Cell,
    hint::black_box,
    marker::PhantomData,
    mem,
    rc::Rc,
    sync::{
        atomic::{AtomicUsize, Ordering::Relaxed},
        Barrier, MutexGuard,
    },
    thread,
};

pub type Bx = Box<u64>;
pub type MS<T> = MaskedStorage<VecStorage<T>>;
pub type MD<T> = MaskedStorage<DenseVecStorage<T>>;
pub type MH<T> = MaskedStorage<HashMapStorage<T>>;
pub type MF<T> = MaskedStorage<Flagged<VecStorage<T>>>;

/// With values at 0, 1, 2, 5, 70 and 5000.
pub fn filled<S: RawStorage + Default>(mut f: impl FnMut(u64) -> S::Item) -> MaskedStorage<S> {
    let mut s = MaskedStorage::<S>::default();
    for i in [0, 1, 2, 5, 70, 5000] {
        s.insert(i, f(i as u64));
    }
    s
}

pub fn boxes<S: RawStorage<Item = Bx> + Default>() -> MaskedStorage<S> {
    filled(Box::new)
}

pub fn see(x: &Bx) {
    black_box(**x);
}

pub fn set(x: &mut Bx) {
    **x += 1;
}

/// A component that owns memory.
#[derive(Clone, Debug, Default)]
pub struct Own(pub Bx);
impl Component for Own {
    type Storage = VecStorage<Self>;
}
#[derive(Clone, Debug, Default)]
pub struct Dense(pub Bx);
impl Component for Dense {
    type Storage = DenseVecStorage<Self>;
}
#[derive(Clone, Debug, Default)]
pub struct Flag(pub Bx);
impl Component for Flag {
    type Storage = Flagged<VecStorage<Self>>;
}

/// Wait, but not for ever, for a second thread to get here, without making either's doings happen before the
/// other's.
pub fn meet() {
    static THREADS: AtomicUsize = AtomicUsize::new(0);
    thread_local!(static FIRST: Cell<bool> = const { Cell::new(true) });
    if FIRST.with(|f| f.replace(false)) {
        THREADS.fetch_add(1, Relaxed);
    }
    for _ in 0..300 {
        if THREADS.load(Relaxed) > 1 {
            break;
        }
        thread::yield_now();
    }
}

/// `Send`, but not `Sync`.
#[derive(Default)]
pub struct Unshared(pub Cell<u64>);
impl Unshared {
    pub fn new(_: u64) -> Self {
        Unshared(Cell::new(0))
    }
    pub fn poke(&self) {
        meet();
        self.0.set(self.0.get() + 1);
    }
}
impl Component for Unshared {
    type Storage = VecStorage<Self>;
}

/// Neither.
#[derive(Clone, Default)]
pub struct Counted(pub Rc<Cell<u64>>);
impl Counted {
    pub fn poke(&self) {
        meet();
        self.0.set(self.0.get() + 1);
        drop(self.0.clone());
    }
}
impl Component for Counted {
    type Storage = VecStorage<Self>;
}

/// `Sync`, but not `Send`, like a mutex guard: only its own thread may have it mutably, or drop it.
pub struct Homely {
    home: thread::ThreadId,
    away: PhantomData<MutexGuard<'static, ()>>,
}
impl Homely {
    pub fn new(_: u64) -> Self {
        Homely { home: thread::current().id(), away: PhantomData }
    }
    pub fn poke(&mut self) {
        if thread::current().id() != self.home {
            eprintln!("AFFINITY: a value that is not Send is reached mutably from another thread");
            std::process::abort();
        }
    }
}
impl Drop for Homely {
    fn drop(&mut self) {
        self.poke();
    }
}
impl Component for Homely {
    type Storage = VecStorage<Self>;
}

pub fn world() -> (World, Entity) {
    let mut w = World::new();
    w.insert_component::<Own>();
    w.insert_component::<Dense>();
    w.insert_component::<Flag>();
    w.insert_resource(String::from("resource"));
    let e = w.create_entity();
    w.get_component_mut().insert(e, Own::default()).unwrap();
    w.get_component_mut().insert(e, Dense::default()).unwrap();
    w.get_component_mut().insert(e, Flag::default()).unwrap();
    (w, e)
}

/// Both at once, the second in another thread.
pub fn both(a: impl FnOnce(), b: impl FnOnce() + Send) {
    thread::scope(|s| {
        let t = s.spawn(b);
        a();
        t.join().unwrap();
    });
}

/// In another thread.
pub fn elsewhere(f: impl FnOnce() + Send) {
    thread::scope(|s| {
        s.spawn(f).join().unwrap();
    });
}

/// A pool that uses threads.
pub struct Spawn;
impl Pool for Spawn {
    fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        thread::scope(|s| {
            let b = s.spawn(b);
            let a = a();
            (a, b.join().unwrap())
        })
    }
}
