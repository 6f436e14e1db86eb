//! Value types of all shapes: every value carries a number, and can tell whether it is intact.
use crate::{Tok, ZTok};

pub trait Val: Sized + 'static {
    const NAME: &'static str;
    /// Whether different values can be told apart.
    const TELLS: bool = true;
    fn make(n: u64) -> Self;
    fn num(&self) -> u64;
    fn set(&mut self, n: u64);
    fn sane(&self) -> bool;
    /// The identity of a recorded value.
    fn tok_id(&self) -> u64 {
        0
    }
    /// What `num` is for `make(n)`.
    fn shown(n: u64) -> u64 {
        n
    }
}

impl Val for u64 {
    const NAME: &'static str = "u64";
    fn make(n: u64) -> Self {
        n
    }
    fn num(&self) -> u64 {
        *self
    }
    fn set(&mut self, n: u64) {
        *self = n
    }
    fn sane(&self) -> bool {
        true
    }
}

impl Val for Box<u64> {
    const NAME: &'static str = "Box<u64>";
    fn make(n: u64) -> Self {
        Box::new(n)
    }
    fn num(&self) -> u64 {
        **self
    }
    fn set(&mut self, n: u64) {
        **self = n
    }
    fn sane(&self) -> bool {
        true
    }
}

impl Val for String {
    const NAME: &'static str = "String";
    fn make(n: u64) -> Self {
        n.to_string()
    }
    fn num(&self) -> u64 {
        self.parse().unwrap_or(u64::MAX)
    }
    fn set(&mut self, n: u64) {
        *self = n.to_string()
    }
    fn sane(&self) -> bool {
        self.parse::<u64>().is_ok()
    }
}

/// Larger than any machine word or cache line.
#[derive(Debug)]
pub struct Big([u64; 33]);

impl Val for Big {
    const NAME: &'static str = "[u64; 33]";
    fn make(n: u64) -> Self {
        let mut b = Big([0; 33]);
        b.set(n);
        b
    }
    fn num(&self) -> u64 {
        self.0[0]
    }
    fn set(&mut self, n: u64) {
        for (i, w) in self.0.iter_mut().enumerate() {
            *w = n.wrapping_mul(i as u64 * 2 + 1);
        }
    }
    fn sane(&self) -> bool {
        self.0
            .iter()
            .enumerate()
            .all(|(i, w)| *w == self.0[0].wrapping_mul(i as u64 * 2 + 1))
    }
}

#[repr(align(64))]
#[derive(Debug)]
pub struct Al(u32, u64);

impl Val for Al {
    const NAME: &'static str = "align(64)";
    fn make(n: u64) -> Self {
        Al(n as u32, n)
    }
    fn num(&self) -> u64 {
        self.1
    }
    fn set(&mut self, n: u64) {
        *self = Al(n as u32, n)
    }
    fn sane(&self) -> bool {
        self.0 == self.1 as u32 && (self as *const _ as usize) % 64 == 0
    }
}

/// Smaller than an index.
impl Val for (u8, u16) {
    const NAME: &'static str = "(u8, u16)";
    const TELLS: bool = false;
    fn make(n: u64) -> Self {
        (n as u8, n as u16)
    }
    fn num(&self) -> u64 {
        self.1 as u64
    }
    fn set(&mut self, n: u64) {
        *self = Self::make(n)
    }
    fn sane(&self) -> bool {
        self.0 == self.1 as u8
    }
    fn shown(n: u64) -> u64 {
        n as u16 as u64
    }
}

impl Val for () {
    const NAME: &'static str = "()";
    const TELLS: bool = false;
    fn make(_: u64) -> Self {}
    fn num(&self) -> u64 {
        0
    }
    fn set(&mut self, _: u64) {}
    fn sane(&self) -> bool {
        true
    }
    fn shown(_: u64) -> u64 {
        0
    }
}

impl Val for ZTok {
    const NAME: &'static str = "zero-sized with destructor";
    const TELLS: bool = false;
    fn make(_: u64) -> Self {
        ZTok::new()
    }
    fn num(&self) -> u64 {
        0
    }
    fn set(&mut self, _: u64) {}
    fn sane(&self) -> bool {
        true
    }
    fn shown(_: u64) -> u64 {
        0
    }
}

impl Val for Tok {
    const NAME: &'static str = "recorded";
    fn make(n: u64) -> Self {
        let mut t = Tok::new();
        t.val = n;
        t
    }
    fn num(&self) -> u64 {
        self.val
    }
    fn set(&mut self, n: u64) {
        self.val = n
    }
    fn sane(&self) -> bool {
        Tok::sane(self)
    }
    fn tok_id(&self) -> u64 {
        self.id
    }
}

impl Val for Option<Box<Tok>> {
    const NAME: &'static str = "recorded behind a niche";
    fn make(n: u64) -> Self {
        Some(Box::new(Tok::make(n)))
    }
    fn num(&self) -> u64 {
        self.as_ref().map(|t| t.val).unwrap_or(u64::MAX)
    }
    fn set(&mut self, n: u64) {
        self.as_mut().unwrap().val = n
    }
    fn sane(&self) -> bool {
        self.as_ref().map(|t| t.sane()).unwrap_or(false)
    }
    fn tok_id(&self) -> u64 {
        self.as_ref().map(|t| t.id).unwrap_or(u64::MAX)
    }
}
