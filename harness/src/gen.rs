//! One source of inputs for every harness.
//!
//! Under Kani each draw is a fresh symbolic value (`kani::any`). Natively a draw comes from one of:
//! a recorded list (a replay), a seeded pseudo random generator, or an exhaustive enumerator that
//! walks every sequence of choices.

#[cfg(kani)]
pub struct Gen;

#[cfg(kani)]
impl Gen {
    pub fn kani() -> Gen {
        Gen
    }
    pub fn choose(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let x: u8 = kani::any();
        kani::assume((x as usize) < n);
        x as usize
    }
    pub fn bool(&mut self) -> bool {
        kani::any()
    }
    pub const fn is_kani(&self) -> bool {
        true
    }
    pub fn note(&mut self, _: &'static str) {}
}

#[cfg(kani)]
macro_rules! draws {
    ($($f:ident $t:ty),*) => { impl Gen { $( pub fn $f(&mut self) -> $t { kani::any() } )* } };
}
#[cfg(kani)]
draws!(u8 u8, u16 u16, u32 u32, u64 u64, u128 u128, usize usize, i8 i8, i16 i16, i32 i32, i64 i64, i128 i128, isize isize);

#[cfg(not(kani))]
pub enum Source {
    /// Values recorded from an earlier run or taken from a verifier's counterexample.
    Replay(Vec<u128>, usize),
    Random(u64),
    /// The current odometer: (value, number of alternatives).
    Exhaustive(Vec<(u32, u32)>, usize),
}

#[cfg(not(kani))]
pub struct Gen {
    pub src: Source,
    pub log: Vec<u128>,
    pub notes: Vec<&'static str>,
}

#[cfg(not(kani))]
impl Gen {
    pub fn random(seed: u64) -> Gen {
        Gen { src: Source::Random(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03), log: Vec::new(), notes: Vec::new() }
    }
    pub fn replay(v: Vec<u128>) -> Gen {
        Gen { src: Source::Replay(v, 0), log: Vec::new(), notes: Vec::new() }
    }
    pub fn exhaustive(odo: Vec<(u32, u32)>) -> Gen {
        Gen { src: Source::Exhaustive(odo, 0), log: Vec::new(), notes: Vec::new() }
    }
    /// Advance an odometer to the next sequence of choices.
    pub fn next_odometer(self) -> Option<Vec<(u32, u32)>> {
        let Source::Exhaustive(mut odo, pos) = self.src else { return None };
        odo.truncate(pos);
        while let Some((v, n)) = odo.pop() {
            if v + 1 < n {
                odo.push((v + 1, n));
                return Some(odo);
            }
        }
        None
    }
    pub const fn is_kani(&self) -> bool {
        false
    }
    pub fn note(&mut self, n: &'static str) {
        self.notes.push(n);
    }
    fn rng(&mut self) -> u64 {
        let Source::Random(ref mut s) = self.src else { unreachable!() };
        *s = s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = *s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn choose(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let r = match self.src {
            Source::Replay(ref v, ref mut p) => {
                let x = v.get(*p).copied().unwrap_or(0);
                *p += 1;
                (x as usize).min(n - 1)
            }
            Source::Random(_) => (self.rng() % n as u64) as usize,
            Source::Exhaustive(ref mut odo, ref mut p) => {
                if *p >= odo.len() {
                    odo.push((0, n as u32));
                }
                let x = odo[*p].0 as usize;
                odo[*p].1 = n as u32;
                *p += 1;
                x
            }
        };
        self.log.push(r as u128);
        r
    }
    pub fn bool(&mut self) -> bool {
        self.choose(2) == 1
    }
    fn bits(&mut self, width: u32, signed: bool) -> u128 {
        let mask = if width == 128 { u128::MAX } else { (1u128 << width) - 1 };
        let sign = 1u128 << (width - 1);
        let table: [u128; 9] = [0, 1, mask, sign, sign - 1, 10, mask - 9, 128, 255];
        let r = match self.src {
            Source::Replay(ref v, ref mut p) => {
                let x = v.get(*p).copied().unwrap_or(0);
                *p += 1;
                x
            }
            Source::Random(_) => {
                let k = self.rng();
                match k % 4 {
                    0 => table[(self.rng() % 9) as usize],
                    1 => {
                        // boundaries of the narrower widths, plus or minus one
                        let w = [7u32, 8, 15, 16, 31, 32, 63, 64, 127][(self.rng() % 9) as usize];
                        let b = 1u128 << w;
                        let x = match self.rng() % 3 { 0 => b, 1 => b - 1, _ => b + 1 };
                        if signed && self.rng() % 2 == 0 { x.wrapping_neg() } else { x }
                    }
                    2 => (self.rng() % 300) as u128,
                    _ => ((self.rng() as u128) << 64) | self.rng() as u128,
                }
            }
            Source::Exhaustive(ref mut odo, ref mut p) => {
                if *p >= odo.len() {
                    odo.push((0, 5));
                }
                let x = odo[*p].0 as usize;
                *p += 1;
                table[x]
            }
        } & mask;
        self.log.push(r);
        r
    }
}

#[cfg(not(kani))]
macro_rules! draws {
    ($($f:ident $t:ty, $s:expr);*) => { impl Gen { $( pub fn $f(&mut self) -> $t { self.bits(<$t>::BITS, $s) as $t } )* } };
}
#[cfg(not(kani))]
draws!(u8 u8, false; u16 u16, false; u32 u32, false; u64 u64, false; u128 u128, false; usize usize, false;
       i8 i8, true; i16 i16, true; i32 i32, true; i64 i64, true; i128 i128, true; isize isize, true);

impl Gen {
    pub fn f32(&mut self) -> f32 {
        #[cfg(not(kani))]
        if let Source::Random(_) = self.src {
            let t = [0.0f32, -0.0, 1.0, -1.5, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MIN_POSITIVE, f32::MAX, 0.1];
            let k = self.choose(12);
            if k < t.len() {
                let b = t[k].to_bits();
                self.log.pop();
                self.log.push(b as u128);
                return t[k];
            }
            self.log.pop();
        }
        f32::from_bits(self.u32())
    }
    pub fn f64(&mut self) -> f64 {
        #[cfg(not(kani))]
        if let Source::Random(_) = self.src {
            let t = [0.0f64, -0.0, 1.0, -1.5, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, f64::MAX, 0.1, 1e21, 5e-324];
            let k = self.choose(14);
            if k < t.len() {
                let b = t[k].to_bits();
                self.log.pop();
                self.log.push(b as u128);
                return t[k];
            }
            self.log.pop();
        }
        f64::from_bits(self.u64())
    }
    pub fn opt_usize(&mut self) -> Option<usize> {
        if self.bool() { Some(self.usize()) } else { None }
    }
    /// A bound that is small under the verifier and larger natively.
    pub fn bound(&self, kani: usize, native: usize) -> usize {
        if self.is_kani() { kani } else { native }
    }
}
