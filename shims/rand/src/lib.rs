//! Stand-in for rand 0.7: every draw from an unseeded generator is an arbitrary value, numbered in
//! the order of the draws.
use std::sync::atomic::{AtomicUsize, Ordering};
use symapi::{fe, Fe};
static DRAWS: AtomicUsize = AtomicUsize::new(0);
static FIELDS: AtomicUsize = AtomicUsize::new(0);
/// number of byte-level draws so far
pub fn draws() -> usize {
    DRAWS.load(Ordering::Relaxed)
}
pub fn field_draws() -> usize {
    FIELDS.load(Ordering::Relaxed)
}
fn digits(n: usize, s: &mut String) {
    if n >= 10 {
        digits(n / 10, s);
    }
    s.push((b'0' + (n % 10) as u8) as char);
}
/// name of the n-th draw
pub fn draw_name(prefix: &str, n: usize) -> String {
    let mut s = String::from(prefix);
    digits(n, &mut s);
    s
}
static mut DRAWN: Vec<u8> = Vec::new();
static mut DRAWN_F: Vec<Fe> = Vec::new();
/// all field elements drawn so far
pub fn drawn_fields() -> Vec<Fe> {
    #[allow(static_mut_refs)]
    unsafe {
        DRAWN_F.clone()
    }
}
/// all bytes drawn so far
pub fn drawn() -> Vec<u8> {
    #[allow(static_mut_refs)]
    unsafe {
        DRAWN.clone()
    }
}
fn draw(dest: &mut [u8]) {
    let n = DRAWS.fetch_add(1, Ordering::Relaxed);
    dest.copy_from_slice(&symapi::bytes_vec(dest.len(), &draw_name("rand", n)));
    #[allow(static_mut_refs)]
    unsafe {
        DRAWN.extend_from_slice(dest)
    }
}
/// used by the field models: a uniform field element
pub fn field<R: RngCore + ?Sized>(f: u32, rng: &mut R) -> Fe {
    if let Some(s) = rng.seed_bytes() {
        return symapi::Uf::new().bytes(&s).to_fe("seeded_field", f);
    }
    let n = FIELDS.fetch_add(1, Ordering::Relaxed);
    let v = fe::var(f, &draw_name("randf", n));
    #[allow(static_mut_refs)]
    unsafe {
        DRAWN_F.push(v)
    }
    v
}
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("rand error")
    }
}
impl std::error::Error for Error {}
pub trait RngCore {
    fn next_u32(&mut self) -> u32;
    fn next_u64(&mut self) -> u64;
    fn fill_bytes(&mut self, dest: &mut [u8]);
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
    /// model only: the state of a seeded generator
    fn seed_bytes(&mut self) -> Option<Vec<u8>> {
        None
    }
}
impl<'a, R: RngCore + ?Sized> RngCore for &'a mut R {
    fn next_u32(&mut self) -> u32 {
        (**self).next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        (**self).next_u64()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        (**self).fill_bytes(dest)
    }
    fn seed_bytes(&mut self) -> Option<Vec<u8>> {
        (**self).seed_bytes()
    }
}
impl<R: RngCore + ?Sized> RngCore for Box<R> {
    fn next_u32(&mut self) -> u32 {
        (**self).next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        (**self).next_u64()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        (**self).fill_bytes(dest)
    }
    fn seed_bytes(&mut self) -> Option<Vec<u8>> {
        (**self).seed_bytes()
    }
}
pub trait CryptoRng {}
pub trait Gen: Sized {
    fn gen_from<R: RngCore + ?Sized>(r: &mut R) -> Self;
}
macro_rules! gens {
    ($($t:ident)*) => {$(impl Gen for $t {
        fn gen_from<R: RngCore + ?Sized>(r: &mut R) -> Self {
            let mut b = [0u8; std::mem::size_of::<$t>()];
            r.fill_bytes(&mut b);
            $t::from_le_bytes(b)
        }
    })*};
}
gens!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64);
impl Gen for bool {
    fn gen_from<R: RngCore + ?Sized>(r: &mut R) -> Self {
        u8::gen_from(r) & 1 == 1
    }
}
macro_rules! arrays {
    ($($n:literal)*) => {$(impl Gen for [u8; $n] {
        fn gen_from<R: RngCore + ?Sized>(r: &mut R) -> Self {
            let mut b = [0u8; $n];
            r.fill_bytes(&mut b);
            b
        }
    })*};
}
arrays!(1 2 4 8 16 17 24 31 32);
pub trait Fill {
    fn fill_from<R: RngCore + ?Sized>(&mut self, r: &mut R);
}
impl Fill for [u8] {
    fn fill_from<R: RngCore + ?Sized>(&mut self, r: &mut R) {
        r.fill_bytes(self)
    }
}
pub trait Rng: RngCore {
    fn gen<T: Gen>(&mut self) -> T {
        T::gen_from(self)
    }
    fn fill<T: Fill + ?Sized>(&mut self, dest: &mut T) {
        dest.fill_from(self)
    }
    fn gen_bool(&mut self, _p: f64) -> bool {
        self.gen()
    }
}
impl<R: RngCore + ?Sized> Rng for R {}
pub trait SeedableRng: Sized {
    type Seed: Sized + Default + AsMut<[u8]>;
    fn from_seed(seed: Self::Seed) -> Self;
    fn seed_from_u64(state: u64) -> Self {
        let mut s = Self::Seed::default();
        for (i, b) in state.to_le_bytes().iter().enumerate() {
            s.as_mut()[i] = *b;
        }
        Self::from_seed(s)
    }
    fn from_entropy() -> Self {
        let mut s = Self::Seed::default();
        draw(s.as_mut());
        Self::from_seed(s)
    }
    fn from_rng<R: RngCore>(mut rng: R) -> Result<Self, Error> {
        let mut s = Self::Seed::default();
        rng.fill_bytes(s.as_mut());
        Ok(Self::from_seed(s))
    }
}
macro_rules! free {
    ($($t:ident)*) => {$(
        #[derive(Clone, Copy, Debug, Default)]
        pub struct $t;
        impl super::RngCore for $t {
            fn next_u32(&mut self) -> u32 {
                let mut b = [0u8; 4];
                super::draw(&mut b);
                u32::from_le_bytes(b)
            }
            fn next_u64(&mut self) -> u64 {
                let mut b = [0u8; 8];
                super::draw(&mut b);
                u64::from_le_bytes(b)
            }
            fn fill_bytes(&mut self, dest: &mut [u8]) {
                super::draw(dest)
            }
        }
        impl super::CryptoRng for $t {}
    )*};
}
/// a generator with a seed: a function of the seed and of what was drawn before
#[derive(Clone, Debug)]
pub struct Seeded {
    seed: [u8; 32],
    drawn: u64,
}
impl RngCore for Seeded {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0u8; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0u8; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        let v = symapi::Uf::new().bytes(&self.seed).u64(self.drawn).to_bytes("seeded_rng", dest.len());
        dest.copy_from_slice(&v);
        self.drawn += dest.len() as u64;
    }
    fn seed_bytes(&mut self) -> Option<Vec<u8>> {
        let mut v = self.seed.to_vec();
        v.extend_from_slice(&self.drawn.to_le_bytes());
        self.drawn += 64;
        Some(v)
    }
}
impl SeedableRng for Seeded {
    type Seed = [u8; 32];
    fn from_seed(seed: [u8; 32]) -> Self {
        Seeded { seed, drawn: 0 }
    }
}
impl CryptoRng for Seeded {}
pub mod rngs {
    free!(ThreadRng OsRng);
    pub use super::Seeded as StdRng;
    pub use super::Seeded as SmallRng;
}
pub fn thread_rng() -> rngs::ThreadRng {
    rngs::ThreadRng
}
pub fn random<T: Gen>() -> T {
    thread_rng().gen()
}
