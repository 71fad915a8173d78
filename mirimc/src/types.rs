//! Element types of all kinds: sizes, alignments, with and without heap memory, with and without
//! invalid bit patterns.
use std::cmp::Ordering;
use std::num::NonZeroU16;

pub trait E: Ord + Sized + 'static {
    const NAME: &'static str;
    fn mk(i: usize) -> Self;
    /// Reads all of it.
    fn id(&self) -> usize;
    /// Writes all of it; same identity.
    fn put(&mut self) {
        *self = Self::mk(self.id())
    }
}

macro_rules! int { ($($t:ty),*) => { $(impl E for $t {
    const NAME: &'static str = stringify!($t);
    fn mk(i: usize) -> Self { i as $t }
    fn id(&self) -> usize { *self as usize }
})* } }
int!(u8, u16, u64, u128);

/// Only as a value: all are equal.
impl E for () {
    const NAME: &'static str = "()";
    fn mk(_: usize) {}
    fn id(&self) -> usize {
        0
    }
}

impl E for Box<u8> {
    const NAME: &'static str = "Box<u8>";
    fn mk(i: usize) -> Self {
        Box::new(i as u8)
    }
    fn id(&self) -> usize {
        **self as usize
    }
}

impl E for NonZeroU16 {
    const NAME: &'static str = "NonZeroU16";
    fn mk(i: usize) -> Self {
        NonZeroU16::new(i as u16 + 1).unwrap()
    }
    fn id(&self) -> usize {
        self.get() as usize - 1
    }
}

impl E for Option<String> {
    const NAME: &'static str = "Option<String>";
    fn mk(i: usize) -> Self {
        if i == 0 {
            None
        } else {
            Some("x".repeat(i))
        }
    }
    fn id(&self) -> usize {
        self.as_ref().map_or(0, |s| s.len())
    }
}

macro_rules! al { ($($n:ident $a:literal),*) => { $(
    #[repr(align($a))]
    pub struct $n(u8);
    impl PartialEq for $n { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
    impl Eq for $n {}
    impl PartialOrd for $n { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
    impl Ord for $n { fn cmp(&self, o: &Self) -> Ordering { self.0.cmp(&o.0) } }
    impl E for $n {
        const NAME: &'static str = stringify!($n);
        fn mk(i: usize) -> Self { $n(i as u8) }
        fn id(&self) -> usize { self.0 as usize }
    }
)* } }
al!(A2 2, A32 32, A512 512);
/// No size, but an alignment.
#[derive(PartialEq, Eq, PartialOrd, Ord)]
#[repr(align(64))]
pub struct Z64;
impl E for Z64 {
    const NAME: &'static str = "Z64";
    fn mk(_: usize) -> Self {
        Z64
    }
    fn id(&self) -> usize {
        0
    }
}

/// 3 bytes: sizes that are no multiple of anything.
#[derive(PartialEq, Eq, PartialOrd, Ord)]
pub struct B3([u8; 3]);
impl E for B3 {
    const NAME: &'static str = "B3";
    fn mk(i: usize) -> Self {
        B3([i as u8; 3])
    }
    fn id(&self) -> usize {
        assert!(self.0[1] == self.0[0] && self.0[2] == self.0[0]);
        self.0[0] as usize
    }
}
