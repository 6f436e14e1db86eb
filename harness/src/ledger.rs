//! Uniquely numbered values whose construction and destruction is recorded, and a fuse that makes the
//! n-th callback into user code panic.
use std::{
    cell::{Cell, RefCell},
    collections::{BTreeMap, BTreeSet},
    sync::{
        atomic::{AtomicI64, AtomicU64, Ordering},
        Mutex,
    },
};

use crate::Res;

const MAGIC: u64 = 0x70C4_0F4B_1E55_ED00;

#[derive(Default)]
struct Inner {
    live: BTreeSet<u64>,
    created: u64,
    dropped: u64,
    drop_log: Vec<u64>,
    parents: BTreeMap<u64, u64>,
    errors: Vec<String>,
}

pub struct Table {
    inner: Mutex<Inner>,
    next: AtomicU64,
    /// Callbacks left until one panics; negative when disarmed.
    fuse: AtomicI64,
    callbacks: AtomicU64,
    fired: AtomicU64,
    /// How many more times to arm the fuse after it has fired, and with what.
    again: AtomicI64,
    gap: AtomicI64,
}

thread_local! {
    static CURRENT: Cell<Option<&'static Table>> = const { Cell::new(None) };
    static POOL: RefCell<Vec<&'static Table>> = const { RefCell::new(Vec::new()) };
}

/// The message of every injected panic.
pub const INJECTED: &str = "injected panic";

impl Table {
    fn lock(&self) -> std::sync::MutexGuard<'_, Inner> {
        self.inner.lock().unwrap_or_else(|e| e.into_inner())
    }

    /// A call into user code happens here.
    pub fn callback(&self, what: &'static str) {
        self.callbacks.fetch_add(1, Ordering::Relaxed);
        if self.fuse.load(Ordering::Relaxed) >= 0
            && !std::thread::panicking()
            && self.fuse.fetch_sub(1, Ordering::Relaxed) == 0
        {
            self.fired.fetch_add(1, Ordering::Relaxed);
            // (Only once this panic has been caught can another be injected: a panic while unwinding aborts.)
            if self.again.fetch_sub(1, Ordering::Relaxed) > 0 {
                self.fuse.store(self.gap.load(Ordering::Relaxed), Ordering::Relaxed);
            }
            panic!("{INJECTED} in {what}");
        }
    }

    fn register(&self, parent: Option<u64>) -> u64 {
        let id = self.next.fetch_add(1, Ordering::Relaxed);
        let mut i = self.lock();
        i.live.insert(id);
        i.created += 1;
        if let Some(p) = parent {
            i.parents.insert(id, p);
        }
        id
    }
}

/// Records the values of one case.
pub struct Ledger {
    pub table: &'static Table,
}

impl Ledger {
    /// Start a new ledger and make it the current one of this thread.
    pub fn new() -> Ledger {
        let table: &'static Table = POOL.with(|p| p.borrow_mut().pop()).unwrap_or_else(|| {
            Box::leak(Box::new(Table {
                inner: Mutex::new(Inner::default()),
                next: AtomicU64::new(1),
                fuse: AtomicI64::new(-1),
                callbacks: AtomicU64::new(0),
                fired: AtomicU64::new(0),
                again: AtomicI64::new(0),
                gap: AtomicI64::new(0),
            }))
        });
        table.fuse.store(-1, Ordering::Relaxed);
        table.callbacks.store(0, Ordering::Relaxed);
        table.fired.store(0, Ordering::Relaxed);
        CURRENT.with(|c| c.set(Some(table)));
        Ledger { table }
    }

    pub fn tok(&self) -> Tok {
        Tok::in_table(self.table)
    }

    pub fn live(&self) -> BTreeSet<u64> {
        self.table.lock().live.clone()
    }

    pub fn live_count(&self) -> usize {
        self.table.lock().live.len()
    }

    pub fn created(&self) -> u64 {
        self.table.lock().created
    }

    pub fn dropped(&self) -> u64 {
        self.table.lock().dropped
    }

    pub fn is_live(&self, id: u64) -> bool {
        self.table.lock().live.contains(&id)
    }

    pub fn parent(&self, id: u64) -> Option<u64> {
        self.table.lock().parents.get(&id).copied()
    }

    /// Ids dropped since the last call, in order.
    pub fn take_drops(&self) -> Vec<u64> {
        std::mem::take(&mut self.table.lock().drop_log)
    }

    /// Let the `n`-th callback from now on (0 is the next one) panic.
    pub fn arm(&self, n: u64) {
        self.arm_again(n, 0, 0)
    }

    /// The same, and then `again` times more, each time at the callback after `gap` others.
    pub fn arm_again(&self, n: u64, gap: u64, again: u64) {
        self.table.again.store(again as i64, Ordering::Relaxed);
        self.table.gap.store(gap as i64, Ordering::Relaxed);
        self.table.fuse.store(n as i64, Ordering::Relaxed);
    }

    pub fn disarm(&self) {
        self.table.fuse.store(-1, Ordering::Relaxed);
    }

    pub fn fired(&self) -> u64 {
        self.table.fired.load(Ordering::Relaxed)
    }

    pub fn callbacks(&self) -> u64 {
        self.table.callbacks.load(Ordering::Relaxed)
    }

    /// Fails if any value was dropped twice (or was never a value).
    pub fn check(&self) -> Res {
        match self.table.lock().errors.first() {
            None => Ok(()),
            Some(e) => Err(e.clone()),
        }
    }

    /// Fails unless exactly the expected values are alive.
    pub fn expect_live(&self, expected: &BTreeSet<u64>, when: &str) -> Res {
        let i = self.table.lock();
        if let Some(e) = i.errors.first() {
            return Err(format!("{when}: {e}"));
        }
        if i.live != *expected {
            let leaked: Vec<_> = i.live.difference(expected).take(8).collect();
            let gone: Vec<_> = expected.difference(&i.live).take(8).collect();
            return Err(format!(
                "{when}: values that should have been dropped are still alive: {leaked:?}; values that are still stored or held have been dropped: {gone:?}"
            ));
        }
        Ok(())
    }
}

impl Default for Ledger {
    fn default() -> Self {
        Self::new()
    }
}

impl Drop for Ledger {
    fn drop(&mut self) {
        self.disarm();
        // A table that still has live values must not be used again, these may be dropped later.
        let mut i = self.table.lock();
        let reusable = i.live.is_empty();
        *i = Inner::default();
        drop(i);
        let _ = CURRENT.try_with(|c| {
            if c.get().map(|t| std::ptr::eq(t, self.table)).unwrap_or(false) {
                c.set(None)
            }
        });
        if reusable {
            let _ = POOL.try_with(|p| p.borrow_mut().push(self.table));
        }
    }
}

pub fn current() -> &'static Table {
    CURRENT.with(|c| c.get()).expect("no current ledger")
}

/// A value with an identity.
#[derive(Debug)]
pub struct Tok {
    pub id: u64,
    magic: u64,
    pub val: u64,
    table: TableRef,
}

#[derive(Clone, Copy)]
struct TableRef(&'static Table);

impl std::fmt::Debug for TableRef {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "_")
    }
}

impl Tok {
    pub fn in_table(table: &'static Table) -> Tok {
        let id = table.register(None);
        Tok {
            id,
            magic: MAGIC ^ id,
            val: id,
            table: TableRef(table),
        }
    }

    pub fn new() -> Tok {
        Tok::in_table(current())
    }

    pub fn sane(&self) -> bool {
        self.magic == MAGIC ^ self.id
    }

    pub fn table(&self) -> &'static Table {
        self.table.0
    }
}

impl Default for Tok {
    fn default() -> Tok {
        current().callback("default");
        Tok::new()
    }
}

impl Clone for Tok {
    fn clone(&self) -> Tok {
        self.table.0.callback("clone");
        let id = self.table.0.register(Some(self.id));
        Tok {
            id,
            magic: MAGIC ^ id,
            val: self.val,
            table: self.table,
        }
    }
}

impl Drop for Tok {
    fn drop(&mut self) {
        let sane = self.sane();
        let mut i = self.table.0.lock();
        if !sane {
            i.errors.push(format!("dropped something that is not a value (id {})", self.id));
        } else if i.live.remove(&self.id) {
            i.dropped += 1;
            i.drop_log.push(self.id);
        } else {
            let id = self.id;
            i.errors.push(format!("value {id} was dropped twice"));
        }
        drop(i);
        self.table.0.callback("drop");
    }
}

thread_local! {
    static ZLIVE: Cell<i64> = const { Cell::new(0) };
}

/// A zero-sized value, of which only the number of live ones can be told.
#[derive(Debug)]
pub struct ZTok(());

impl ZTok {
    pub fn new() -> ZTok {
        ZLIVE.with(|z| z.set(z.get() + 1));
        ZTok(())
    }
    pub fn live() -> i64 {
        ZLIVE.with(|z| z.get())
    }
    pub fn reset() {
        ZLIVE.with(|z| z.set(0))
    }
}

impl Default for ZTok {
    fn default() -> Self {
        Self::new()
    }
}

impl Drop for ZTok {
    fn drop(&mut self) {
        ZLIVE.with(|z| z.set(z.get() - 1));
    }
}
