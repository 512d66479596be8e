use crate::Src;
use rust_3d::io::verif::*;
use rust_3d::{array_from_bytes_be, array_from_bytes_le};
use std::io::Cursor;

fn bytes<S: Src>(s: &mut S, n: usize) -> Vec<u8> {
    match s.below(4) {
        0 => (0..n).map(|_| [0u8, 1, 0x7f, 0x80, 0xff][s.below(5)]).collect(),
        _ => (0..n).map(|_| s.u8()).collect(),
    }
}
/// the value encoded by the bytes, most significant byte first
fn value(b: &[u8]) -> u64 {
    b.iter().fold(0, |v, x| (v << 8) | *x as u64)
}
fn signed(v: u64, n: usize) -> i64 {
    ((v << (64 - 8 * n)) as i64) >> (64 - 8 * n)
}
macro_rules! rd {
    ($s:expr, $reader:ident, $data:expr, $big:expr, $f:ident, $t:ty, $n:expr, $want:expr) => {{
        let n: usize = $n;
        let mut c = Cursor::new(&$data[..]);
        let got: Result<$t, _> = $reader::$f(&mut c);
        if $data.len() < n {
            $s.ck(got.is_err(), concat!(stringify!($f), ": too few bytes give an error"));
        } else {
            let mut b = $data[..n].to_vec();
            if !$big {
                b.reverse();
            }
            let want: u64 = ($want)(value(&b), n);
            match got {
                Ok(x) => $s.ck(raw(&x) == want, concat!(stringify!($f), ": value")),
                Err(_) => $s.ck(false, concat!(stringify!($f), ": enough bytes give a value")),
            }
            $s.ck(c.position() == n as u64, concat!(stringify!($f), ": consumes exactly its bytes"));
        }
    }};
}
trait Raw {
    fn raw(&self) -> u64;
}
macro_rules! raws { ($($t:ty),*) => { $(impl Raw for $t { fn raw(&self) -> u64 { *self as i128 as u64 } })* } }
raws!(u8, i8, u16, i16, u32, i32, u64, i64);
impl Raw for f32 {
    fn raw(&self) -> u64 {
        self.to_bits() as u64
    }
}
impl Raw for f64 {
    fn raw(&self) -> u64 {
        self.to_bits()
    }
}
fn raw<T: Raw>(x: &T) -> u64 {
    x.raw()
}
fn u(v: u64, _: usize) -> u64 {
    v
}
fn i(v: u64, n: usize) -> u64 {
    signed(v, n) as u64
}
macro_rules! all_rd {
    ($s:expr, $reader:ident, $d:expr, $big:expr) => {
        rd!($s, $reader, $d, $big, read_u8, u8, 1, u);
        rd!($s, $reader, $d, $big, read_i8, i8, 1, i);
        rd!($s, $reader, $d, $big, read_u16, u16, 2, u);
        rd!($s, $reader, $d, $big, read_i16, i16, 2, i);
        rd!($s, $reader, $d, $big, read_u32, u32, 4, u);
        rd!($s, $reader, $d, $big, read_i32, i32, 4, i);
        rd!($s, $reader, $d, $big, read_f32, f32, 4, u);
        rd!($s, $reader, $d, $big, read_u64, u64, 8, u);
        rd!($s, $reader, $d, $big, read_i64, i64, 8, i);
        rd!($s, $reader, $d, $big, read_f64, f64, 8, u);
    };
}
pub fn readers<S: Src>(s: &mut S) {
    let n = s.below(11);
    let d = bytes(s, n);
    all_rd!(s, LittleReader, d, false);
    all_rd!(s, BigReader, d, true);
}
fn decode<S: Src, T: FromBytes + Raw + Default + Copy>(s: &mut S, d: &[u8], n: usize, want: fn(u64, usize) -> u64) {
    let check = |s: &mut S, x: FromBytesResult<T>, part: &[u8], big: bool| {
        let mut b = part.to_vec();
        if !big {
            b.reverse();
        }
        match x {
            Ok(v) => s.ck(b.len() == n && raw(&v) == want(value(&b), n), "decoded value"),
            Err(_) => s.ck(b.len() != n, "bytes of the right length decode"),
        }
    };
    check(s, T::from_le_slice(d), d, false);
    check(s, T::from_be_slice(d), d, true);
    if d.len() >= n {
        check(s, T::from_le_slice(&d[..n]), &d[..n], false);
        check(s, T::from_be_slice(&d[..n]), &d[..n], true);
    }
    for k in 0..4 {
        for big in [false, true] {
            let mut t = vec![T::default(); k];
            let r = if big { slice_from_bytes_be(d, &mut t) } else { slice_from_bytes_le(d, &mut t) };
            s.ck(r.is_ok() == (d.len() == n * k), "a slice decodes exactly if the size matches");
            if r.is_ok() {
                for (j, v) in t.iter().enumerate() {
                    check(s, Ok(*v), &d[j * n..(j + 1) * n], big);
                }
            }
        }
    }
    let le = (|| -> FromBytesResult<[T; 2]> { array_from_bytes_le!(T, 2, d) })();
    let be = (|| -> FromBytesResult<[T; 2]> { array_from_bytes_be!(T, 2, d) })();
    s.ck(le.is_ok() == (d.len() == 2 * n) && be.is_ok() == (d.len() == 2 * n), "an array decodes exactly if the size matches");
    if let (Ok(l), Ok(b)) = (le, be) {
        for j in 0..2 {
            check(s, Ok(l[j]), &d[j * n..(j + 1) * n], false);
            check(s, Ok(b[j]), &d[j * n..(j + 1) * n], true);
        }
    }
}
pub fn slices<S: Src>(s: &mut S) {
    let w = [1, 2, 4, 8][s.below(4)];
    let n = if s.below(5) == 0 { s.below(26) } else { w * s.below(4) };
    let d = bytes(s, n);
    decode::<S, u8>(s, &d, 1, u);
    decode::<S, i8>(s, &d, 1, i);
    decode::<S, u16>(s, &d, 2, u);
    decode::<S, i16>(s, &d, 2, i);
    decode::<S, u32>(s, &d, 4, u);
    decode::<S, i32>(s, &d, 4, i);
    decode::<S, f32>(s, &d, 4, u);
    decode::<S, u64>(s, &d, 8, u);
    decode::<S, i64>(s, &d, 8, i);
    decode::<S, f64>(s, &d, 8, u);
}
crate::natives! { readers: 3000, slices: 3000 }
