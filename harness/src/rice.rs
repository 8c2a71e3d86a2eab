//! Reference RICE encoder (the algorithm of the tiled-image convention, pixels of 1, 2 or 4 bytes).
struct Bits {
    out: Vec<u8>,
    cur: u64,
    n: u32,
}
impl Bits {
    fn put(&mut self, v: u64, bits: u32) {
        for i in (0..bits).rev() {
            self.cur = (self.cur << 1) | ((v >> i) & 1);
            self.n += 1;
            if self.n == 8 {
                self.out.push(self.cur as u8);
                self.cur = 0;
                self.n = 0;
            }
        }
    }
}
pub fn compress(px: &[i32], nblock: usize, bytepix: usize) -> Vec<u8> {
    let (fsbits, fsmax, bbits) = match bytepix {
        1 => (3u32, 6u32, 8u32),
        2 => (4, 14, 16),
        _ => (5, 25, 32),
    };
    let mut b = Bits { out: vec![], cur: 0, n: 0 };
    if px.is_empty() {
        return vec![];
    }
    b.put(px[0] as u32 as u64, bbits);
    let mut last = px[0];
    for blk in px.chunks(nblock) {
        let mut diffs: Vec<u32> = vec![];
        let mut sum = 0f64;
        for &p in blk {
            let d = p.wrapping_sub(last);
            // differences wrap around in the width of a pixel
            let d = match bytepix {
                1 => d as i8 as i32,
                2 => d as i16 as i32,
                _ => d,
            };
            // map signed differences to non-negative
            let u = if d < 0 { !((d as u32) << 1) } else { (d as u32) << 1 };
            sum += u as f64;
            diffs.push(u);
            last = p;
        }
        let n = blk.len() as f64;
        let mut dpsum = (sum - n / 2.0 - 1.0) / n;
        if dpsum < 0.0 {
            dpsum = 0.0;
        }
        let psum = (dpsum as u32) >> 1;
        let mut fs = 0;
        let mut p = psum;
        while p > 0 {
            fs += 1;
            p >>= 1;
        }
        if fs >= fsmax {
            b.put((fsmax + 1) as u64, fsbits);
            for d in diffs {
                b.put(d as u64, bbits);
            }
        } else if fs == 0 && sum == 0.0 {
            b.put(0, fsbits);
        } else {
            b.put((fs + 1) as u64, fsbits);
            for d in diffs {
                let top = d >> fs;
                for _ in 0..top {
                    b.put(0, 1);
                }
                b.put(1, 1);
                if fs > 0 {
                    b.put((d & ((1u32 << fs) - 1)) as u64, fs);
                }
            }
        }
    }
    while b.n != 0 {
        b.put(0, 1);
    }
    b.out
}
