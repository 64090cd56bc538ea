use symrt::*;
use zune_core::bytestream::{ZByteReaderTrait, ZCursor, ZReader, ZSeekFrom, ZWriter};

/// what a reader over `d` has to do
struct Model {
    d: Vec<u8>,
    pos: u64,
}
impl Model {
    fn left(&self) -> usize {
        self.d.len() - (self.pos.min(self.d.len() as u64)) as usize
    }
    fn at(&self) -> usize {
        self.pos.min(self.d.len() as u64) as usize
    }
    fn take(&mut self, n: usize) -> Option<Vec<u8>> {
        if n > self.left() {
            return None;
        }
        let a = self.at();
        self.pos += n as u64;
        Some(self.d[a..a + n].to_vec())
    }
    fn seek(&mut self, base: u64, off: i64) -> Option<u64> {
        let p = base as i128 + off as i128;
        if p < 0 || p > u64::MAX as i128 {
            return None;
        }
        self.pos = p as u64;
        Some(self.pos)
    }
}
fn same(r: Result<u64, ()>, m: Option<u64>, id: u64) {
    match (r, m) {
        (Ok(a), Some(b)) => check(a == b, id),
        (Err(_), None) => {}
        _ => check(false, id + 100),
    }
}
fn be(v: Vec<u8>) -> u64 {
    v.iter().fold(0, |a, b| a << 8 | *b as u64)
}
fn le(v: Vec<u8>) -> u64 {
    v.iter().rev().fold(0, |a, b| a << 8 | *b as u64)
}
/// one operation, chosen freely, on the reader and on the model
fn step<T: ZByteReaderTrait>(r: &mut ZReader<T>, m: &mut Model, full: bool, far: bool) {
    let op = choice(if full { 20 } else { 6 });
    let op = if full { op } else { [0, 5, 7, 9, 11, 12][op] };
    match op {
        0 => same(r.read_u8_err().map(|x| x as u64).map_err(|_| ()), m.take(1).map(be), 10),
        1 => same(r.get_u16_be_err().map(|x| x as u64).map_err(|_| ()), m.take(2).map(be), 11),
        2 => same(r.get_u32_le_err().map(|x| x as u64).map_err(|_| ()), m.take(4).map(le), 12),
        3 => same(r.get_u64_be_err().map_err(|_| ()), m.take(8).map(be), 13),
        4 => check(r.get_u16_le() as u64 == m.take(2).map_or(0, le), 14),
        5 => check(r.get_u32_be() as u64 == m.take(4).map_or(0, be), 15),
        6 => check(r.get_u64_le() == m.take(8).map_or(0, le), 16),
        7 => {
            let n = choice(5);
            let mut b = vec![0xaa; n];
            match (r.read_exact_bytes(&mut b), m.take(n)) {
                (Ok(_), Some(w)) => check_eq(&b, &w, 17),
                (Err(_), None) => {}
                _ => check(false, 117),
            }
        }
        8 => {
            // may return fewer bytes than asked for, but never wrong ones, and some unless at the end
            let n = choice(5);
            let mut b = vec![0xaa; n];
            match r.read_bytes(&mut b) {
                Ok(k) => {
                    check(k <= n && k <= m.left() && (k > 0 || n == 0 || m.left() == 0), 118);
                    let w = m.take(k).unwrap_or_default();
                    check_eq(&b[..k], &w, 18);
                }
                Err(_) => check(false, 218),
            }
        }
        9 => {
            let (k, n) = (choice(4), choice(4));
            let a = m.at() + k;
            let ok = m.pos <= m.d.len() as u64 && a + n <= m.d.len();
            match r.peek_at(k, n) {
                Ok(b) => {
                    check(ok || n == 0, 119);
                    if n > 0 {
                        check_eq(b, &m.d[a..a + n], 19);
                    }
                }
                Err(_) => check(!ok, 219),
            }
        }
        10 => check(r.read_u8() as u64 == m.take(1).map_or(0, be), 20),
        11 => {
            let x = if far { u64v() } else { u8v() as u64 };
            assume(x <= i64::MAX as u64);
            let p = m.pos;
            same(r.skip(x as usize).map_err(|_| ()), m.seek(p, x as i64), 21);
        }
        12 => {
            let x = if far { u64v() } else { u8v() as u64 };
            assume(x <= i64::MAX as u64);
            let p = m.pos;
            same(r.rewind(x as usize).map_err(|_| ()), m.seek(p, -(x as i64)), 22);
        }
        13 => {
            let x = if far { u64v() } else { u8v() as u64 };
            check(r.set_position(x as usize).is_ok(), 23);
            m.pos = x;
        }
        14 => {
            let x = if far { u64v() as i64 } else { u8v() as i8 as i64 };
            let l = m.d.len() as u64;
            same(r.seek(ZSeekFrom::End(x)).map_err(|_| ()), m.seek(l, x), 24);
        }
        15 => {
            let x = if far { u64v() as i64 } else { u8v() as i8 as i64 };
            let p = m.pos;
            same(r.seek(ZSeekFrom::Current(x)).map_err(|_| ()), m.seek(p, x), 25);
        }
        16 => check_eq(&r.read_fixed_bytes_or_zero::<3>(), &m.take(3).unwrap_or(vec![0; 3]), 26),
        17 => match (r.read_fixed_bytes_or_error::<3>(), m.take(3)) {
            (Ok(a), Some(b)) => check_eq(&a, &b, 27),
            (Err(_), None) => {}
            _ => check(false, 127),
        },
        #[cfg(feature = "std")]
        18 => {
            let n = choice(3);
            let mut b = [9u8; 2];
            use std::io::Read;
            match r.read(&mut b[..n]) {
                Ok(k) => {
                    check(k <= n && k <= m.left() && (k > 0 || n == 0 || m.left() == 0), 128);
                    let w = m.take(k).unwrap_or_default();
                    check_eq(&b[..k], &w, 28);
                }
                Err(_) => check(false, 228),
            }
        }
        _ => {}
    }
    match r.position() {
        Ok(p) => check(p == m.pos, 1),
        Err(_) => check(false, 2),
    }
    match r.eof() {
        Ok(e) => check(e == (m.left() == 0), 3),
        Err(_) => check(false, 4),
    }
}
fn run<T: ZByteReaderTrait>(s: T, d: Vec<u8>, steps: usize, full: bool, far: bool) {
    let mut r = ZReader::new(s);
    let mut m = Model { d, pos: 0 };
    for _ in 0..steps {
        step(&mut r, &mut m, full, far);
    }
    reach(1);
    // what is left
    let mut rest = vec![];
    let mut s = r.consume();
    if m.pos <= m.d.len() as u64 {
        match s.read_remaining(&mut rest) {
            Ok(k) => {
                check(k == rest.len(), 5);
                check_eq(&rest, &m.d[m.at()..], 6);
            }
            Err(_) => check(false, 7),
        }
    }
}
/// histories of operations on the readers: args = reader, bytes, operations, all kinds?, any 64-bit positions?
#[no_mangle]
#[inline(never)]
pub extern "C" fn reader() {
    let (kind, n, steps, full, far) = (arg(0), arg(1), arg(2), arg(3) == 1, arg(4) == 1);
    let d = vec(n);
    match kind {
        0 => run(ZCursor::new(d.clone()), d, steps, full, far),
        #[cfg(feature = "std")]
        1 => run(std::io::Cursor::new(d.clone()), d, steps, full, far),
        #[cfg(feature = "std")]
        2 => run(std::io::BufReader::with_capacity(3, std::io::Cursor::new(d.clone())), d, steps, full, far),
        _ => {}
    }
}
/// the cursor's own trait methods
#[no_mangle]
#[inline(never)]
pub extern "C" fn cursor() {
    let n = arg(0);
    let d = vec(n);
    let mut c = ZCursor::new(d.clone());
    let p = u64v() as usize;
    c.skip(p);
    let (a, b) = c.split();
    let k = p.min(n);
    check_eq(a, &d[..k], 1);
    check_eq(b, &d[k..], 2);
    let q = choice(5);
    let mut buf = vec![0; q];
    match c.peek_bytes(&mut buf) {
        Ok(l) => {
            check(l == q.min(n - k), 3);
            check_eq(&buf[..l], &d[k..k + l], 4);
        }
        Err(_) => check(false, 5),
    }
    let ok = c.peek_exact_bytes(&mut buf).is_ok();
    check(ok == (q <= n - k), 6);
    c.rewind(3);
    check(c.z_position().ok() == Some(p.saturating_sub(3) as u64), 7);
    reach(1);
}
/// writers: what is written is what arrives, in the order and byte order asked for
#[no_mangle]
#[inline(never)]
pub extern "C" fn writer() {
    let steps = arg(0);
    let cap = arg(1);
    let mut v = vec![];
    let mut fixed = vec![0u8; cap];
    let mut want: Vec<u8> = vec![];
    // what the fixed size sink must hold
    let mut held: Vec<u8> = vec![];
    let mut a = ZWriter::new(&mut v);
    let mut b = ZWriter::new(&mut fixed[..]);
    let mut full = false;
    for _ in 0..steps {
        let x = u64v();
        let d: Vec<u8>;
        let (mut ra, mut rb) = (true, true);
        let mut silent = false;
        macro_rules! num {
            ($t:ty, $to:ident, $f:ident, $g:ident) => {{
                d = (x as $t).$to().to_vec();
                if choice(2) == 0 {
                    ra = a.$f(x as $t).is_ok();
                    rb = b.$f(x as $t).is_ok();
                } else {
                    silent = true;
                    a.$g(x as $t);
                    b.$g(x as $t);
                }
            }};
        }
        match choice(9) {
            0 => num!(u8, to_be_bytes, write_u8_err, write_u8),
            1 => num!(u16, to_be_bytes, write_u16_be_err, write_u16_be),
            2 => num!(u16, to_le_bytes, write_u16_le_err, write_u16_le),
            3 => num!(u32, to_be_bytes, write_u32_be_err, write_u32_be),
            4 => num!(u32, to_le_bytes, write_u32_le_err, write_u32_le),
            5 => num!(u64, to_be_bytes, write_u64_be_err, write_u64_be),
            6 => num!(u64, to_le_bytes, write_u64_le_err, write_u64_le),
            7 => {
                d = vec(choice(6));
                ra = a.write_all(&d).is_ok();
                rb = b.write_all(&d).is_ok();
            }
            _ => {
                // as much as fits
                d = vec(choice(6));
                check(matches!(a.write(&d), Ok(n) if n == d.len()), 7);
                want.extend(&d);
                check(a.bytes_written() == want.len(), 8);
                let n = d.len().min(cap - held.len());
                check(matches!(b.write(&d), Ok(k) if k == n), 9);
                held.extend(&d[..n]);
                check(b.bytes_written() == held.len(), 10);
                continue;
            }
        }
        check(ra, 1);
        let fits = held.len() + d.len() <= cap;
        check(silent || rb == fits, 2);
        want.extend(&d);
        check(a.bytes_written() == want.len(), 3);
        if !fits {
            // the count still says what was written by calls that succeeded
            check(b.bytes_written() == held.len(), 11);
            full = true;
            break;
        }
        held.extend(&d);
        check(b.bytes_written() == held.len(), 4);
    }
    check_eq(a.inner_ref(), &want, 5);
    let k = held.len();
    check_eq(&fixed[..k], &held, 6);
    if !full {
        check(fixed[k..].iter().all(|x| *x == 0), 12);
    }
    reach(1);
}
harnesses!(reader, cursor, writer);
