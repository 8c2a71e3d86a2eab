//! The simulated scenarios and their oracles, one per property (synchronous side).
use crate::ensure;
use crate::gen::*;
use crate::obs::*;
use crate::sim::*;
use crate::tape::{mix, Lane};
use fitsrs::{Fits, HDU};
use std::io::{Cursor, ErrorKind, Read};
use std::rc::Rc;

pub fn describe_file(ctx: &mut Ctx, f: &FileSpec) {
    let s = f.sig();
    ctx.mark(s);
    // byte by byte, several times over
    let most = 8_000_000 + 64 * f.bytes.len() as u64;
    ctx.ctl.borrow_mut().budget = most;
    if ctx.verbose {
        for l in f.describe() {
            ctx.say(|| l);
        }
    }
}

pub fn must_next<R: Rd>(fits: &mut Fits<R>, s: &HduSpec, i: usize, class: &str) -> Result<HDU, Violation> {
    match fits.next() {
        Some(Ok(h)) => {
            check_shape(&h, s, i, class)?;
            let p = fits.get_position_data_unit() as u64;
            ensure!(p == s.data_off, class, "HDU {i}: position of the data unit reported as {p} instead of {}", s.data_off);
            Ok(h)
        }
        Some(Err(e)) => viol(class, format!("HDU {i}: error {e:?} instead of the HDU")),
        None => viol(class, format!("the list ended before HDU {i}")),
    }
}
pub fn must_end<R: Rd>(fits: &mut Fits<R>, n: usize, class: &str) -> Check {
    for k in 0..3 {
        match fits.next() {
            None => {}
            Some(Ok(h)) => return viol(class, format!("HDU {n} does not exist but a {} was returned (call {k} after the end)", kind_of(&h))),
            Some(Err(e)) => return viol(class, format!("error {e:?} instead of the end of the list (call {k})")),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C01
pub fn c01(ctx: &mut Ctx) -> Check {
    if ctx.ops.chance(1, 50) {
        return huge_content(ctx, &[3, 1, 4, 2]);
    }
    let big = ctx.ops.chance(1, 8);
    let cfg = GenCfg { prefix: true, rich_headers: ctx.ops.chance(1, 4), big, max_ext: if ctx.ops.chance(1, 10) { 14 } else { 5 }, ..GenCfg::default() };
    let f = gen_file(&mut ctx.file, &cfg);
    describe_file(ctx, &f);
    let c = FaultCfg::benign(&mut ctx.ops);
    ctx.set_cfg(c);
    let r = ctx.reader(&f.bytes, f.base, true);
    let mut fits = Fits::from_reader(r);
    for (i, s) in f.hdus.iter().enumerate() {
        let h = must_next(&mut fits, s, i, "traversal")?;
        // touching or not touching the data is the caller's choice
        if ctx.ops.chance(1, 5) {
            let m = rand_mode(&mut ctx.ops, s);
            let exp = expected(s, &m);
            if let Some(mut ss) = open(&mut fits, &h, &m) {
                let n = ctx.ops.us(exp.len() + 2);
                for _ in 0..n {
                    if ss.next().is_none() {
                        break;
                    }
                }
            }
            ctx.count("hdus_partly_read");
        }
        ctx.count("hdus");
    }
    ctx.nontrivial = f.hdus.len() > 1;
    must_end(&mut fits, f.hdus.len(), "traversal-end")
}

// ------------------------------------------------------------------ C02
/// Do something with the data unit whose result is of no interest here.
fn consume<R: Rd>(ctx: &mut Ctx, fits: &mut Fits<R>, h: &HDU, s: &HduSpec, can_fail: bool) -> Check {
    let how = ctx.ops.weighted(&[1, 1, 4, 2, 4, 2, if can_fail { 3 } else { 0 }]);
    ctx.mark(how as u64);
    let m = rand_mode(&mut ctx.ops, s);
    let items = expected(s, &m).len();
    let pull = |ss: &mut Session<R>, n: usize| {
        for _ in 0..n {
            match ss.next() {
                None => break,
                Some(Obs::IoErr(_)) => break,
                _ => {}
            }
        }
    };
    match how {
        0 => {
            ctx.say(|| "  data: not asked for".into());
            ctx.count("consume_none");
        }
        1 => {
            ctx.say(|| format!("  data: opened ({m:?}) and dropped"));
            ctx.count("consume_open_only");
            let _ = open(fits, h, &m);
        }
        2 => {
            let n = ctx.ops.us(items + 1);
            ctx.say(|| format!("  data: {n} of {items} items of {m:?}, then dropped"));
            ctx.count("consume_partial");
            if let Some(mut ss) = open(fits, h, &m) {
                pull(&mut ss, n);
            }
        }
        3 => {
            ctx.say(|| format!("  data: all {items} items of {m:?} and beyond"));
            ctx.count("consume_all");
            if let Some(mut ss) = open(fits, h, &m) {
                pull(&mut ss, items + 2);
                for _ in 0..2 {
                    let _ = ss.next();
                }
            }
        }
        4 => {
            ctx.count("consume_random_access");
            if let Some(mut ss) = open(fits, h, &m) {
                let k = ctx.ops.range(1, 6);
                for _ in 0..k {
                    let rows = match &s.kind {
                        Kind::Bin(b) | Kind::Tile(b, _) => b.rows,
                        _ => items,
                    };
                    let idx = ctx.ops.us(rows + 2);
                    ctx.say(|| format!("  data: jump to {idx} ({m:?})"));
                    let _ = ss.read_value(idx);
                    let _ = ss.seek_to_row(idx);
                    let n = ctx.ops.us(4);
                    pull(&mut ss, n);
                }
            }
        }
        5 => {
            // raw bytes through the list itself, possibly far past this unit
            let n = match ctx.ops.below(3) {
                0 => ctx.ops.us(s.data.len() + 1),
                1 => ctx.ops.us(s.data.len() + 9000),
                _ => (pad_up(s.data.len() as u64) + ctx.ops.below(3)) as usize,
            };
            ctx.say(|| format!("  data: {n} raw bytes read through the list"));
            ctx.count("consume_raw_read");
            let mut buf = vec![0u8; n];
            let mut k = 0;
            while k < n {
                match fits.read(&mut buf[k..]) {
                    Ok(0) => break,
                    Ok(m) => k += m,
                    Err(e) if e.kind() == ErrorKind::Interrupted => {}
                    Err(_) => break,
                }
            }
            let want = &s.data[..k.min(s.data.len())];
            ensure!(&buf[..k.min(s.data.len())] == want, "raw-read", "the bytes read through the list are not those of the data unit");
        }
        _ => {
            // one failure somewhere in the reading, then the device works again
            let seek = ctx.ops.chance(1, 3);
            let k = ctx.ops.below(if seek { 6 } else { 12 });
            let kind = *ctx.ops.pick(&ERR_KINDS);
            {
                let mut c = ctx.ctl.borrow_mut();
                c.fired = false;
                c.cfg.sticky = false;
                c.cfg.kind = kind;
                c.cfg.trig = if seek { Trig::Seek(c.seeks + k) } else { Trig::Read(c.reads + k) };
            }
            ctx.say(|| format!("  data: {m:?} with one {kind:?} at the {k}-th {} from here", if seek { "seek" } else { "read" }));
            ctx.count("consume_with_io_error");
            if let Some(mut ss) = open(fits, h, &m) {
                pull(&mut ss, items + 1);
                let idx = ctx.ops.us(items + 1);
                let _ = ss.read_value(idx);
                let _ = ss.seek_to_row(idx.min(3));
                pull(&mut ss, 3);
            }
            ctx.ctl.borrow_mut().cfg.trig = Trig::None;
        }
    }
    Ok(())
}

/// Replace what a reader would follow in some data units by nonsense.
fn scramble_units(l: &mut Lane, f: &FileSpec) -> (FileSpec, Vec<usize>) {
    let mut b = f.bytes.to_vec();
    let mut g = f.clone();
    let mut hit = vec![];
    for (i, h) in f.hdus.iter().enumerate() {
        if h.data.is_empty() || !l.chance(1, 4) {
            continue;
        }
        hit.push(i);
        let o = h.data_off as usize;
        let n = h.data.len();
        let mode = l.below(3);
        let d = fill(l.below(1 << 20), if mode == 0 { 1 } else { 2 }, n);
        match mode {
            0 | 1 => b[o..o + n].copy_from_slice(&d),
            _ => {
                let k = l.us(n);
                let m = (1 + l.us(16)).min(n - k);
                b[o + k..o + k + m].copy_from_slice(&d[k..k + m]);
            }
        }
        g.hdus[i].data = b[o..o + n].to_vec();
    }
    g.bytes = b.into();
    (g, hit)
}

pub fn c02(ctx: &mut Ctx) -> Check {
    if ctx.ops.chance(1, 50) {
        return huge_content(ctx, &[3, 1, 4, 2]);
    }
    let cfg = GenCfg { prefix: true, w: [3, 1, 4, 3], max_ext: 6, ..GenCfg::default() };
    let f0 = gen_file(&mut ctx.file, &cfg);
    describe_file(ctx, &f0);
    let (f, bad) = if ctx.ops.chance(1, 3) { scramble_units(&mut ctx.ops, &f0) } else { (f0.clone(), vec![]) };
    if !bad.is_empty() {
        ctx.say(|| format!("data units overwritten with nonsense: {bad:?}"));
        ctx.count("fault_scrambled_unit");
    }
    let c = FaultCfg::benign(&mut ctx.ops);
    ctx.set_cfg(c);
    let r = ctx.reader(&f.bytes, f.base, true);
    let mut fits = Fits::from_reader(r);
    for (i, s) in f.hdus.iter().enumerate() {
        let h = must_next(&mut fits, s, i, "traversal-after-data")?;
        // the item counts come from the undamaged unit, the raw bytes from the damaged one
        let mut s2 = f0.hdus[i].clone();
        if bad.contains(&i) {
            ctx.say(|| format!("  (unit {i} is nonsense)"));
            let e = expected(&s2, &Mode::Ascii).len().min(4000);
            let m = rand_mode(&mut ctx.ops, &s2);
            let n = ctx.ops.us(e + 2);
            if let Some(mut ss) = open(&mut fits, &h, &m) {
                for _ in 0..n {
                    if ss.next().is_none() {
                        break;
                    }
                }
            }
            ctx.count("consume_nonsense");
            s2.data = s.data.clone();
        } else {
            consume(ctx, &mut fits, &h, &s2, true)?;
        }
        ctx.count("hdus");
    }
    ctx.nontrivial = f.hdus.len() > 1;
    must_end(&mut fits, f.hdus.len(), "traversal-end-after-data")
}

// ------------------------------------------------------------------ C03
fn image_history<R: Rd>(ctx: &mut Ctx, ss: &mut Session<R>, exp: &[Exp], i: usize) -> Check {
    let n = exp.len();
    let mut at = 0usize;
    let steps = ctx.ops.range(1, 10);
    for _ in 0..steps {
        match ctx.ops.below(3) {
            0 => {
                let k = ctx.ops.us(40.min(n + 2));
                for _ in 0..k {
                    match ss.next() {
                        Some(o) => {
                            ensure!(at < n, "pixels", "HDU {i}: pixel {o:?} after the last one");
                            ensure!(exp[at].matches(&o), "pixels", "HDU {i} pixel {at}: {o:?} instead of {:?}", exp[at].o);
                            at += 1;
                        }
                        None => {
                            ensure!(at == n, "pixels", "HDU {i}: ended at pixel {at} of {n}");
                            break;
                        }
                    }
                }
            }
            k => {
                // in range, on the edge, beyond
                let idx = if k == 1 && n > 0 {
                    ctx.ops.us(n)
                } else {
                    *ctx.ops.pick(&[0, n, n.wrapping_sub(1), n + 1, usize::MAX, usize::MAX / 2])
                };
                ctx.say(|| format!("  read_value({idx}) after being at {at}"));
                ctx.count("random_access");
                match ss.read_value(idx) {
                    Some(Ok(o)) => {
                        ensure!(idx < n, "random-access", "HDU {i}: value for pixel {idx} of {n}");
                        ensure!(exp[idx].matches(&o), "random-access", "HDU {i} pixel {idx}: {o:?} instead of {:?}", exp[idx].o);
                        at = idx + 1;
                    }
                    Some(Err(e)) => {
                        ensure!(idx >= n, "random-access", "HDU {i}: pixel {idx} of {n} refused: {e}");
                    }
                    None => return Ok(()),
                }
            }
        }
    }
    // and the rest, in order
    while at < n {
        match ss.next() {
            Some(o) => {
                ensure!(exp[at].matches(&o), "pixels", "HDU {i} pixel {at}: {o:?} instead of {:?}", exp[at].o);
                at += 1;
            }
            None => return viol("pixels", format!("HDU {i}: ended at pixel {at} of {n}")),
        }
    }
    ensure!(ss.next().is_none(), "pixels", "HDU {i}: more than {n} pixels");
    Ok(())
}

pub fn c03(ctx: &mut Ctx) -> Check {
    if ctx.ops.chance(1, 50) {
        return huge_content(ctx, &[1, 0, 0, 0]);
    }
    let cfg = GenCfg { prefix: true, w: [5, 2, 0, 0], odd: 60, primary_image: ctx.ops.chance(1, 2), big: ctx.ops.chance(1, 10), ..GenCfg::default() };
    let f = gen_file(&mut ctx.file, &cfg);
    describe_file(ctx, &f);
    let c = FaultCfg::benign(&mut ctx.ops);
    ctx.set_cfg(c);
    if ctx.ops.chance(1, 10) {
        return c03_mem(ctx, &f);
    }
    let r = ctx.reader(&f.bytes, f.base, true);
    let mut fits = Fits::from_reader(r);
    for (i, s) in f.hdus.iter().enumerate() {
        let h = must_next(&mut fits, s, i, "pixels-traversal")?;
        let m = rand_mode(&mut ctx.ops, s);
        let exp = expected(s, &m);
        let Some(mut ss) = open(&mut fits, &h, &m) else { return viol("pixels", format!("HDU {i}: data not presented as {m:?}")) };
        if m == Mode::Image && ctx.ops.chance(1, 2) {
            image_history(ctx, &mut ss, &exp, i)?;
        } else {
            let n = read_all(&mut ss, &exp, i, "pixels")?;
            ensure!(n == exp.len(), "pixels", "HDU {i}: ended after {n} of {} items", exp.len());
        }
        ctx.extra.add("items_checked", exp.len() as u64);
        if exp.len() > 1 {
            ctx.nontrivial = true;
        }
    }
    Ok(())
}
fn c03_mem(ctx: &mut Ctx, f: &FileSpec) -> Check {
    let mut cur = Cursor::new(f.bytes.to_vec());
    cur.set_position(f.base);
    let mut fits = Fits::from_reader(cur);
    for (i, s) in f.hdus.iter().enumerate() {
        let h = must_next(&mut fits, s, i, "pixels-traversal")?;
        if let HDU::Primary(h) | HDU::XImage(h) = &h {
            let d = fits.get_data(h);
            let b = d.raw_bytes();
            ensure!(b == &s.data[..], "raw-bytes", "HDU {i}: raw bytes differ from the data unit");
            ctx.count("raw_bytes");
            ctx.nontrivial |= !s.data.is_empty();
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C04
fn table_history<R: Rd>(ctx: &mut Ctx, ss: &mut Session<R>, b: &BinSpec, data: &[u8], cols: &[usize], heap: bool, i: usize) -> Check {
    let layout = |cols: &[usize]| {
        let rows = rows_exp(b, data, cols, heap);
        let mut starts = vec![0];
        for r in &rows {
            starts.push(starts.last().unwrap() + r.len());
        }
        (rows.into_iter().flatten().collect::<Vec<Exp>>(), starts)
    };
    let nr = b.rows;
    let (mut flat, mut starts) = layout(cols);
    let mut at = 0usize;
    let steps = ctx.ops.range(1, 8);
    for _ in 0..steps {
        // other columns, in the middle of a row: it starts again
        let row = starts.partition_point(|s| *s <= at).saturating_sub(1);
        if starts[row] < at && at < flat.len() && ctx.ops.chance(1, 6) {
            let (sel, cols) = rand_sel(&mut ctx.ops, b);
            if !cols.is_empty() {
                ctx.say(|| format!("  select {cols:?} after value {at}, in row {row}"));
                ctx.count("reselections");
                ss.select(&sel);
                (flat, starts) = layout(&cols);
                at = starts[row];
            }
        }
        if ctx.ops.chance(1, 2) {
            let k = ctx.ops.us(30);
            for _ in 0..k {
                match ss.next() {
                    Some(o) => {
                        ensure!(at < flat.len(), "table", "HDU {i}: value {o:?} after the last one");
                        ensure!(flat[at].matches(&o), "table", "HDU {i} value {at}: {o:?} instead of {:?}", flat[at].o);
                        at += 1;
                    }
                    None => {
                        ensure!(at == flat.len(), "table", "HDU {i}: ended at value {at} of {}", flat.len());
                        break;
                    }
                }
            }
        } else {
            let r = if ctx.ops.chance(4, 5) { ctx.ops.us(nr.max(1)) } else { *ctx.ops.pick(&[nr, nr + 1, usize::MAX, 1 << 40]) };
            ctx.say(|| format!("  seek_to_row({r}) after value {at}"));
            ctx.count("row_seeks");
            match ss.seek_to_row(r) {
                Some(Ok(())) => {
                    ensure!(r < nr, "row-seek", "HDU {i}: row {r} of {nr} accepted");
                    if ctx.ops.chance(1, 5) {
                        // other columns from here on
                        let (sel, cols) = rand_sel(&mut ctx.ops, b);
                        if !cols.is_empty() {
                            ctx.say(|| format!("  select {cols:?} from there"));
                            ctx.count("reselections");
                            ss.select(&sel);
                            (flat, starts) = layout(&cols);
                        }
                    }
                    at = starts[r];
                }
                Some(Err(e)) => ensure!(r >= nr, "row-seek", "HDU {i}: row {r} of {nr} refused: {e}"),
                None => return Ok(()),
            }
        }
    }
    while at < flat.len() {
        match ss.next() {
            Some(o) => {
                ensure!(flat[at].matches(&o), "table", "HDU {i} value {at}: {o:?} instead of {:?}", flat[at].o);
                at += 1;
            }
            None => return viol("table", format!("HDU {i}: ended at value {at} of {}", flat.len())),
        }
    }
    ensure!(ss.next().is_none(), "table", "HDU {i}: more than {} values", flat.len());
    Ok(())
}

fn rows_exp(b: &BinSpec, data: &[u8], cols: &[usize], heap: bool) -> Vec<Vec<Exp>> {
    b.rows_of(data, cols, heap)
        .into_iter()
        .map(|r| {
            r.into_iter()
                .map(|c| Exp { o: if matches!(c.v, V::P(..) | V::Q(..)) { Obs::Desc(c.v) } else { Obs::Cell(c.col, c.idx, c.v) }, tol: 0.0, need: c.need })
                .collect()
        })
        .collect()
}

pub fn c04(ctx: &mut Ctx) -> Check {
    if ctx.ops.chance(1, 50) {
        return huge_content(ctx, &[0, 0, 1, 0]);
    }
    let cfg = GenCfg { prefix: true, w: [0, 0, 8, 1], max_ext: 3, odd: 60, ..GenCfg::default() };
    let f = gen_file(&mut ctx.file, &cfg);
    describe_file(ctx, &f);
    let c = FaultCfg::benign(&mut ctx.ops);
    ctx.set_cfg(c);
    if ctx.ops.chance(1, 12) {
        let mut cur = Cursor::new(f.bytes.to_vec());
        cur.set_position(f.base);
        let mut fits = Fits::from_reader(cur);
        for (i, s) in f.hdus.iter().enumerate() {
            let h = must_next(&mut fits, s, i, "table-traversal")?;
            if let HDU::XBinaryTable(h) = &h {
                let d = fits.get_data(h).table_data();
                ensure!(d.raw_bytes() == &s.data[..], "raw-bytes", "HDU {i}: raw bytes differ from the data unit");
                ctx.count("raw_bytes");
                ctx.nontrivial |= !s.data.is_empty();
            }
        }
        return Ok(());
    }
    let r = ctx.reader(&f.bytes, f.base, true);
    let mut fits = Fits::from_reader(r);
    'hdu: for (i, s) in f.hdus.iter().enumerate() {
        let h = must_next(&mut fits, s, i, "table-traversal")?;
        let (Kind::Bin(b) | Kind::Tile(b, _)) = &s.kind else { continue };
        let mut m = rand_mode(&mut ctx.ops, s);
        if m == Mode::TilePixels && ctx.ops.chance(1, 3) && b.rows > 0 {
            // the table behind a compressed image, some pixels of which were read
            let Some(mut ss) = open(&mut fits, &h, &m) else { return viol("table", format!("HDU {i}: not presented as a compressed image")) };
            let k = ctx.ops.log_below(2000);
            let mut n = 0;
            while n < k && ss.next().is_some() {
                n += 1;
            }
            let Session::Tile(p) = ss else { unreachable!() };
            let mut t = fitsrs::hdu::data::bintable::data::BinaryTableData::TileCompressed(p).table_data();
            let r = ctx.ops.us(b.rows);
            ctx.say(|| format!("  HDU {i}: {n} pixels, then the table from row {r} on"));
            ctx.count("table_after_pixels");
            if let Err(e) = t.seek_to_row(r) {
                return viol("row-seek", format!("HDU {i}: row {r} of {} refused after {n} pixels: {e}", b.rows));
            }
            let cols: Vec<usize> = (0..b.cols.len()).collect();
            for (q, e) in rows_exp(b, &s.data, &cols, false)[r..].iter().flatten().enumerate() {
                let o = t.next().map(dv);
                ensure!(o.as_ref().is_some_and(|o| e.matches(o)), "table", "HDU {i}: value {q} from row {r} on, after {n} pixels: {o:?} instead of {:?}", e.o);
            }
            ensure!(t.next().is_none(), "table", "HDU {i}: values after the last row");
            ctx.nontrivial = true;
            continue;
        }
        if m == Mode::TilePixels {
            m = if ctx.ops.chance(1, 2) { Mode::TileTable } else { Mode::TileRows };
        }
        ctx.say(|| format!("  HDU {i}: {m:?}"));
        let exp = expected(s, &m);
        let no_width = b.naxis1 == 0;
        let Some(mut ss) = open(&mut fits, &h, &m) else { return viol("table", format!("HDU {i}: data not presented as {m:?}")) };
        let cols: Option<Vec<usize>> = match &m {
            Mode::Values(None) | Mode::TileTable => Some((0..b.cols.len()).collect()),
            Mode::Values(Some((_, c))) => Some(c.clone()),
            _ => None,
        };
        let heap = !matches!(m, Mode::TileTable);
        match cols {
            Some(cols) if ctx.ops.chance(1, 2) && !no_width && !cols.is_empty() => {
                let rows = rows_exp(b, &s.data, &cols, heap);
                // rows from a given row on
                if let (Session::Vals(_), true) = (&ss, ctx.ops.chance(1, 4) && b.rows > 0) {
                    let r = ctx.ops.us(b.rows);
                    ctx.say(|| format!("  seek_to_row({r}) then rows"));
                    ctx.count("row_iter_after_seek");
                    let Session::Vals(mut t) = ss else { unreachable!() };
                    let k = ctx.ops.us(6);
                    for _ in 0..k {
                        let _ = t.next();
                    }
                    if let Err(e) = t.seek_to_row(r) {
                        return viol("row-seek", format!("HDU {i}: row {r} of {} refused: {e}", b.rows));
                    }
                    let mut it = t.row_iter();
                    let stop = if ctx.ops.chance(1, 3) { r + ctx.ops.us(b.rows - r + 1) } else { usize::MAX };
                    for (q, want) in rows.iter().enumerate().skip(r) {
                        if q == stop {
                            // and go on value by value
                            ctx.count("values_after_rows");
                            let mut t = it.table_data();
                            for (k, e) in rows[q..].iter().flatten().enumerate() {
                                let o = t.next().map(dv);
                                ensure!(o.as_ref().is_some_and(|o| e.matches(o)), "table", "HDU {i}: value {k} from row {q} on, after {} rows: {o:?} instead of {:?}", q - r, e.o);
                            }
                            ensure!(t.next().is_none(), "table", "HDU {i}: values after the last row");
                            ctx.nontrivial = true;
                            continue 'hdu;
                        }
                        let Some(got) = it.next() else { return viol("table", format!("HDU {i}: rows ended at {q} of {}", rows.len())) };
                        let got: Vec<Obs> = got.into_vec().into_iter().map(dv).collect();
                        let want: Vec<Obs> = want.iter().map(|e| e.o.clone()).collect();
                        ensure!(got == want, "table", "HDU {i} row {q}: {got:?} instead of {want:?}");
                        ensure!(it.get_row_idx() == q + 1, "table", "HDU {i}: row index {} after row {q}", it.get_row_idx());
                    }
                    ensure!(it.next().is_none(), "table", "HDU {i}: more rows than {}", rows.len());
                } else {
                    table_history(ctx, &mut ss, b, &s.data, &cols, heap, i)?;
                }
            }
            _ => {
                if no_width {
                    // nothing to deliver; the number of empty rows is not specified
                    for _ in 0..b.rows + 2 {
                        match ss.next() {
                            None => break,
                            Some(Obs::Row(v)) if v.is_empty() => {}
                            Some(o) => return viol("table", format!("HDU {i}: {o:?} out of a table without bytes")),
                        }
                    }
                } else {
                    let n = read_all(&mut ss, &exp, i, "table")?;
                    ensure!(n == exp.len(), "table", "HDU {i}: ended after {n} of {} items ({m:?})", exp.len());
                    for _ in 0..2 {
                        ensure!(ss.next().is_none(), "table", "HDU {i}: items after the end ({m:?})");
                    }
                }
            }
        }
        ctx.extra.add("items_checked", exp.len() as u64);
        ctx.nontrivial |= exp.len() > 1;
    }
    Ok(())
}

// ------------------------------------------------------------------ C05
pub fn c05(ctx: &mut Ctx) -> Check {
    if ctx.ops.chance(1, 50) {
        return huge_content(ctx, &[0, 0, 0, 1]);
    }
    let cfg = GenCfg { prefix: true, w: [0, 0, 0, 1], max_ext: 2, odd: 60, ..GenCfg::default() };
    let f = gen_file(&mut ctx.file, &cfg);
    describe_file(ctx, &f);
    let c = FaultCfg::benign(&mut ctx.ops);
    ctx.set_cfg(c);
    let r = ctx.reader(&f.bytes, f.base, true);
    let mut fits = Fits::from_reader(r);
    for (i, s) in f.hdus.iter().enumerate() {
        let h = must_next(&mut fits, s, i, "tile-traversal")?;
        let Kind::Tile(_, t) = &s.kind else { continue };
        let exp = expected(s, &Mode::TilePixels);
        let Some(mut ss) = open(&mut fits, &h, &Mode::TilePixels) else { return viol("tile", format!("HDU {i}: not presented as a compressed image")) };
        let ok = matches!(
            (&ss, t.zbitpix),
            (Session::Tile(TP::U8(_)), 8) | (Session::Tile(TP::I16(_)), 16) | (Session::Tile(TP::I32(_)), 32) | (Session::Tile(TP::F32(_)), -32) | (Session::Tile(TP::F64(_)), -64)
        );
        ensure!(ok, "tile", "HDU {i}: pixel type does not match ZBITPIX {}", t.zbitpix);
        if ctx.ops.chance(1, 6) {
            let n = ctx.ops.us(exp.len() + 1);
            for (k, e) in exp.iter().enumerate().take(n) {
                let Some(o) = ss.next() else { return viol("tile", format!("HDU {i}: ended at pixel {k} of {}", exp.len())) };
                ensure!(e.matches(&o), "tile", "HDU {i} pixel {k}: {o:?} instead of {:?}", e.o);
            }
            ctx.count("tile_partial");
        } else {
            let n = read_all(&mut ss, &exp, i, "tile")?;
            ensure!(n == exp.len(), "tile", "HDU {i}: ended after {n} of {} pixels", exp.len());
        }
        ctx.extra.add("items_checked", exp.len() as u64);
        ctx.extra.add(if t.cmp.starts_with("RICE") { "tiles_rice" } else { "tiles_gzip" }, t.tile_starts.len() as u64 - 1);
        ctx.nontrivial |= t.tile_starts.len() > 2;
    }
    Ok(())
}
use fitsrs::hdu::data::bintable::tile_compressed::pixels::Pixels as TP;

// ------------------------------------------------------------------ C06
pub fn c06(ctx: &mut Ctx) -> Check {
    let cfg = GenCfg { prefix: true, rich_headers: true, max_ext: 3, w: [4, 1, 2, 0], ..GenCfg::default() };
    let f = gen_file(&mut ctx.file, &cfg);
    describe_file(ctx, &f);
    let c = FaultCfg::benign(&mut ctx.ops);
    ctx.set_cfg(c);
    let r = ctx.reader(&f.bytes, f.base, true);
    let mut fits = Fits::from_reader(r);
    for (i, s) in f.hdus.iter().enumerate() {
        let h = must_next(&mut fits, s, i, "header-traversal")?;
        check_hdu_header(&h, s, i, "header")?;
        ctx.extra.add("cards_checked", s.cards.len() as u64);
        ctx.nontrivial |= s.cards.len() > 8;
        if ctx.ops.chance(1, 4) {
            consume(ctx, &mut fits, &h, s, false)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C07
/// A truncation point, biased towards the edges of cards, blocks and units.
pub fn cut_point(l: &mut Lane, f: &FileSpec) -> u64 {
    let len = f.bytes.len() as u64;
    let h = &f.hdus[l.us(f.hdus.len())];
    let dl = h.data.len() as u64;
    let c = match l.weighted(&[3, 3, 2, 2, 2, 2, 2]) {
        0 => l.below(len + 1),
        1 => h.data_off + if dl > 0 { l.below(dl + 1) } else { 0 },
        2 => h.hdr_off + l.below(h.data_off - h.hdr_off),
        3 => h.hdr_off + 80 * l.below((h.end_card_end - h.hdr_off) / 80 + 1),
        4 => h.data_off + l.below(3) - 1,
        5 => (h.data_off + dl + l.below(3)).saturating_sub(1),
        _ => (h.next_off() + l.below(3)).saturating_sub(1),
    };
    c.clamp(f.base.min(len), len)
}

pub enum Fate {
    /// header complete: the HDU must be there
    Ok,
    /// must be an error
    Err,
    /// none or an error, never an HDU
    NoneOrErr,
    /// anything that is not wrong
    Any,
    /// the list must end
    End,
}
/// What a reader may do with HDU i of a file cut at t.
pub fn fate(f: &FileSpec, i: usize, t: u64) -> Fate {
    if i >= f.hdus.len() {
        // the list is over; a cut file may be reported as an error
        let last = f.hdus.last().unwrap();
        return if t >= last.data_off + last.data.len() as u64 { Fate::End } else { Fate::NoneOrErr };
    }
    let h = &f.hdus[i];
    if t >= h.data_off {
        Fate::Ok
    } else if t >= h.end_card_end {
        Fate::Any
    } else if t >= h.hdr_off + 80 {
        Fate::Err
    } else {
        Fate::NoneOrErr
    }
}

/// Reading on, pixels by index and rows by index in turn, where some of it cannot be read:
/// `may(need)` tells whether it is excused not to deliver what needs that many bytes of the unit.
/// What is delivered is right, whatever failed before.
fn hurt_history<R: Rd>(ctx: &mut Ctx, ss: &mut Session<R>, s: &HduSpec, m: &Mode, i: usize, class: &str, may: &dyn Fn(&Ctx, u64) -> bool) -> Check {
    let (exp, starts): (Vec<Exp>, Vec<usize>) = match (&s.kind, m) {
        (Kind::Bin(b) | Kind::Tile(b, _), Mode::Values(_) | Mode::TileTable) => {
            let cols: Vec<usize> = match m {
                Mode::Values(Some((_, c))) => c.clone(),
                _ => (0..b.cols.len()).collect(),
            };
            let mut starts = vec![];
            let mut flat = vec![];
            for r in rows_exp(b, &s.data, &cols, *m != Mode::TileTable) {
                starts.push(flat.len());
                flat.extend(r);
            }
            if cols.is_empty() {
                starts.clear();
            }
            (flat, starts)
        }
        _ => (expected(s, m), vec![]),
    };
    ctx.count("histories_with_failures");
    let n = exp.len();
    // where the reader can be, and whether something failed
    let mut p = vec![0usize];
    let mut hurt = false;
    for _ in 0..ctx.ops.range(2, 12) {
        let op = ctx.ops.below(2);
        if op == 1 && !starts.is_empty() {
            let r = ctx.ops.us(starts.len());
            let st = starts[r];
            let res = ss.seek_to_row(r);
            ctx.say(|| format!("  seek_to_row({r}): {res:?}"));
            match res {
                Some(Ok(())) => p = vec![st],
                Some(Err(e)) => {
                    ensure!(hurt || may(ctx, exp.get(st).map_or(u64::MAX, |e| e.need)), class, "HDU {i}: row {r} refused without a cause: {e}");
                    hurt = true;
                    p.push(st);
                }
                None => {}
            }
        } else if op == 1 && *m == Mode::Image && n > 0 {
            let k = if ctx.ops.chance(1, 8) { n + ctx.ops.us(2) } else { ctx.ops.us(n) };
            let res = ss.read_value(k);
            ctx.say(|| format!("  read_value({k}): {res:?}"));
            match res {
                Some(Ok(o)) => {
                    ensure!(k < n && exp[k].matches(&o), class, "HDU {i} pixel {k} of {n}: {o:?} instead of {:?}", exp.get(k).map(|e| &e.o));
                    p = vec![k + 1];
                }
                Some(Err(e)) if k < n => {
                    ensure!(hurt || may(ctx, exp[k].need), class, "HDU {i}: pixel {k} refused without a cause: {e}");
                    hurt = true;
                    p.extend([k, k + 1]);
                }
                _ => {}
            }
        } else {
            for _ in 0..ctx.ops.us(12) {
                match ss.next() {
                    None | Some(Obs::IoErr(_)) => {
                        ensure!(hurt || p.iter().any(|&q| q >= n || may(ctx, exp[q].need)), class, "HDU {i}: nothing after item {} of {n} without a cause", p[0]);
                        hurt |= p.iter().any(|&q| q < n);
                        break;
                    }
                    Some(o) => {
                        p.retain(|&q| q < n && exp[q].matches(&o));
                        ensure!(!p.is_empty(), class, "HDU {i}: {o:?} is not the item that follows");
                        p.iter_mut().for_each(|q| *q += 1);
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn c07(ctx: &mut Ctx) -> Check {
    let cfg = GenCfg { prefix: true, w: [3, 1, 3, 2], max_ext: 4, ..GenCfg::default() };
    let f = gen_file(&mut ctx.file, &cfg);
    describe_file(ctx, &f);
    let t = cut_point(&mut ctx.ops, &f);
    ctx.say(|| format!("cut at byte {t} of {}", f.bytes.len()));
    ctx.mark(t);
    ctx.count("fault_truncation");
    let cut: Rc<[u8]> = f.bytes[..t as usize].into();
    let c = FaultCfg::benign(&mut ctx.ops);
    ctx.set_cfg(c);
    ctx.nontrivial = t < f.bytes.len() as u64;
    // the in-memory views must not reach past the end either
    if ctx.ops.chance(1, 10) {
        return c07_mem(ctx, &f, &cut);
    }
    let r = ctx.reader(&cut, f.base, true);
    let mut fits = Fits::from_reader(r);
    for i in 0..=f.hdus.len() {
        let got = fits.next();
        let fate = fate(&f, i, t);
        match (fate, got) {
            (Fate::Ok, Some(Ok(h))) | (Fate::Any, Some(Ok(h))) => {
                let s = &f.hdus[i];
                check_hdu_header(&h, s, i, "trunc-header")?;
                if t < s.data_off {
                    // the header's padding is missing
                    continue;
                }
                check_shape(&h, s, i, "trunc-header")?;
                let m = rand_mode(&mut ctx.ops, s);
                ctx.say(|| format!("  HDU {i}: {m:?}"));
                let exp = expected(s, &m);
                let avail = t - s.data_off;
                let full = exp.iter().take_while(|e| e.need <= avail).count();
                let Some(mut ss) = open(&mut fits, &h, &m) else { return viol("trunc-data", format!("HDU {i}: data not presented as {m:?}")) };
                let zero_width = matches!(&s.kind, Kind::Bin(b) if b.naxis1 == 0);
                if zero_width {
                    continue;
                }
                if ctx.ops.chance(1, 4) {
                    hurt_history(ctx, &mut ss, s, &m, i, "trunc-data", &|_, need| need > avail)?;
                    continue;
                }
                let rand = ctx.ops.chance(1, 8);
                if rand && m == Mode::Image && !exp.is_empty() {
                    for _ in 0..4 {
                        let k = ctx.ops.us(exp.len());
                        ctx.say(|| format!("  read_value({k})"));
                        match ss.read_value(k) {
                            Some(Ok(o)) => ensure!(exp[k].matches(&o), "trunc-data", "HDU {i} pixel {k}: {o:?} instead of {:?}", exp[k].o),
                            Some(Err(e)) => {
                                ensure!(exp[k].need > avail, "trunc-data", "HDU {i}: pixel {k} is in the file but was refused: {e}");
                                // what is there may be refused after a failure, but never wrong
                                break;
                            }
                            None => {}
                        }
                    }
                    if let Some(o) = ss.read_value(exp.len() - 1) {
                        if let Ok(o) = o {
                            ensure!(exp[exp.len() - 1].matches(&o), "trunc-data", "HDU {i} last pixel: {o:?} instead of {:?}", exp[exp.len() - 1].o);
                        }
                    }
                    continue;
                }
                let mut n = 0;
                let mut nones = 0;
                loop {
                    match ss.next() {
                        Some(Obs::IoErr(ErrorKind::UnexpectedEof)) => {
                            nones += 1;
                        }
                        Some(o) => {
                            ensure!(n < exp.len(), "trunc-data", "HDU {i}: extra item {o:?} after {n}");
                            ensure!(exp[n].matches(&o), "trunc-data", "HDU {i} item {n}: {o:?} instead of {:?}", exp[n].o);
                            n += 1;
                        }
                        None => nones += 1,
                    }
                    if nones >= 3 {
                        break;
                    }
                }
                ensure!(n >= full, "trunc-data", "HDU {i} ({m:?}): {n} items delivered, {full} are complete in the file");
                ctx.extra.add("items_checked", n as u64);
            }
            (Fate::Ok, Some(Err(e))) => return viol("trunc-lost", format!("HDU {i}: its header is complete in the cut file but the result is {e:?}")),
            (Fate::Ok, None) => return viol("trunc-lost", format!("HDU {i}: its header is complete in the cut file but the list ended")),
            (_, Some(Ok(h))) => return viol("trunc-ghost", format!("HDU {i}: a {} that is not (completely) in the file", kind_of(&h))),
            (Fate::Err, None) => return viol("trunc-silent", format!("HDU {i}: its header is cut and the list ended without an error")),
            (Fate::End, Some(Err(e))) => return viol("trunc-end", format!("error {e:?} at the end of a list that is complete")),
            (_, Some(Err(_))) | (_, None) => {
                for _ in 0..2 {
                    match fits.next() {
                        None => {}
                        Some(Ok(h)) => return viol("trunc-ghost", format!("a {} after the end", kind_of(&h))),
                        Some(Err(_)) => return viol("trunc-end", "an error after the end of the list".to_string()),
                    }
                }
                return Ok(());
            }
        }
    }
    Ok(())
}
fn c07_mem(ctx: &mut Ctx, f: &FileSpec, cut: &Rc<[u8]>) -> Check {
    let mut cur = Cursor::new(cut.to_vec());
    cur.set_position(f.base);
    let mut fits = Fits::from_reader(cur);
    let mut i = 0;
    ctx.count("raw_bytes");
    while let Some(Ok(h)) = fits.next() {
        ensure!(i < f.hdus.len(), "trunc-ghost", "more HDUs than in the file");
        let s = &f.hdus[i];
        let b: Vec<u8> = match &h {
            HDU::Primary(h) | HDU::XImage(h) => fits.get_data(h).raw_bytes().to_vec(),
            HDU::XBinaryTable(h) => fits.get_data(h).table_data().raw_bytes().to_vec(),
            _ => vec![],
        };
        ensure!(s.data.starts_with(&b), "trunc-data", "HDU {i}: raw bytes are not those of the data unit");
        i += 1;
    }
    Ok(())
}

// ------------------------------------------------------------------ C08
pub fn rand_fault(l: &mut Lane, len: u64, seeks: bool) -> FaultCfg {
    let mut c = FaultCfg::benign(l);
    c.kind = *l.pick(&ERR_KINDS);
    c.sticky = l.chance(1, 2);
    c.trig = match l.weighted(&[3, 2, if seeks { 2 } else { 0 }]) {
        0 => Trig::Byte(l.below(len + 1)),
        1 => Trig::Read(l.log_below(400)),
        _ => Trig::Seek(l.log_below(40)),
    };
    c
}

pub fn c08(ctx: &mut Ctx) -> Check {
    let cfg = GenCfg { prefix: false, w: [3, 1, 4, 3], max_ext: 4, ..GenCfg::default() };
    let f = gen_file(&mut ctx.file, &cfg);
    describe_file(ctx, &f);
    let mut c = rand_fault(&mut ctx.ops, f.bytes.len() as u64, true);
    if let Trig::Byte(_) = c.trig {
        // aim at edges as well
        if ctx.ops.chance(1, 2) {
            c.trig = Trig::Byte(cut_point(&mut ctx.ops, &f));
        }
    }
    ctx.set_cfg(c);
    let r = ctx.reader(&f.bytes, 0, false);
    let mut fits = Fits::from_reader(r);
    for i in 0..=f.hdus.len() {
        let t0 = ctx.trips();
        let got = fits.next();
        let tripped = ctx.trips() > t0;
        ctx.say(|| format!("next() #{i}: tripped {tripped}"));
        match got {
            Some(Ok(h)) => {
                ensure!(i < f.hdus.len(), "ioerr-ghost", "a {} after the last HDU", kind_of(&h));
                let s = &f.hdus[i];
                check_shape(&h, s, i, "ioerr-header")?;
                check_hdu_header(&h, s, i, "ioerr-header")?;
                let m = rand_mode(&mut ctx.ops, s);
                ctx.say(|| format!("  HDU {i}: {m:?}"));
                let exp = expected(s, &m);
                if matches!(&s.kind, Kind::Bin(b) if b.naxis1 == 0) {
                    continue;
                }
                let t0 = ctx.trips();
                let Some(mut ss) = open(&mut fits, &h, &m) else { return viol("ioerr-data", format!("HDU {i}: data not presented as {m:?}")) };
                if ctx.ops.chance(1, 3) {
                    hurt_history(ctx, &mut ss, s, &m, i, "ioerr-data", &|ctx, _| ctx.trips() > t0)?;
                    if ctx.trips() > t0 {
                        ctx.count("io_error_in_data");
                        ctx.nontrivial = true;
                    }
                    continue;
                }
                let mut n = 0;
                let mut nones = 0;
                let mut errs = 0;
                loop {
                    match ss.next() {
                        Some(Obs::IoErr(k)) => {
                            ensure!(ctx.trips() > t0, "ioerr-data", "HDU {i}: error {k:?} that the device never raised");
                            errs += 1;
                            if errs > 3 {
                                break;
                            }
                        }
                        Some(o) => {
                            ensure!(n < exp.len(), "ioerr-data", "HDU {i}: extra item {o:?} after {n}");
                            ensure!(exp[n].matches(&o), "ioerr-data", "HDU {i} item {n}: {o:?} instead of {:?}", exp[n].o);
                            n += 1;
                        }
                        None => {
                            if nones == 0 && n < exp.len() {
                                ensure!(ctx.trips() > t0, "ioerr-data", "HDU {i} ({m:?}): ended after {n} of {} items though the device never failed", exp.len());
                            }
                            nones += 1;
                            if nones > 3 {
                                break;
                            }
                        }
                    }
                }
                if ctx.trips() > t0 {
                    ctx.count("io_error_in_data");
                    ctx.nontrivial = true;
                }
                // random access after the fact: refused or right
                for _ in 0..3 {
                    if exp.is_empty() {
                        break;
                    }
                    let k = ctx.ops.us(exp.len());
                    if let Some(Ok(o)) = ss.read_value(k) {
                        ensure!(exp[k].matches(&o), "ioerr-random-access", "HDU {i} pixel {k} after a failure: {o:?} instead of {:?}", exp[k].o);
                    }
                }
                if let (Mode::Values(_) | Mode::TileTable, (Kind::Bin(b) | Kind::Tile(b, _))) = (&m, &s.kind) {
                    let cols: Vec<usize> = match &m {
                        Mode::Values(Some((_, c))) => c.clone(),
                        _ => (0..b.cols.len()).collect(),
                    };
                    if b.rows > 0 && !cols.is_empty() {
                        let r = ctx.ops.us(b.rows);
                        if let Some(Ok(())) = ss.seek_to_row(r) {
                            let rows = b.rows_of(&s.data, &cols, m != Mode::TileTable);
                            let want: Vec<&Cell> = rows[r..].iter().flatten().collect();
                            for w in want.iter().take(12) {
                                let Some(o) = ss.next() else { break };
                                let wo = if matches!(w.v, V::P(..) | V::Q(..)) { Obs::Desc(w.v) } else { Obs::Cell(w.col, w.idx, w.v) };
                                ensure!(o == wo, "ioerr-row-seek", "HDU {i} row {r} after a failure: {o:?} instead of {wo:?}");
                            }
                        }
                    }
                }
            }
            Some(Err(e)) => {
                ensure!(tripped, "ioerr-spurious", "HDU {i}: error {e:?} though the device did not fail in this call");
                ctx.count("io_error_in_header");
                ctx.nontrivial = true;
                for _ in 0..3 {
                    ensure!(fits.next().is_none(), "ioerr-not-fused", "the list goes on after an error");
                }
                return Ok(());
            }
            None => {
                ensure!(!tripped, "ioerr-silent", "the device failed and the list just ended at HDU {i}");
                ensure!(i == f.hdus.len(), "ioerr-lost", "the list ended at HDU {i} of {}", f.hdus.len());
                return Ok(());
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C12
pub fn damage_header(l: &mut Lane, f: &FileSpec, b: &mut [u8]) -> usize {
    let i = l.us(f.hdus.len());
    let h = &f.hdus[i];
    let o = h.hdr_off as usize;
    let n = (h.end_card_end - h.hdr_off) as usize / 80;
    const NUMS: [&str; 16] = ["0", "-1", "1", "9223372036854775807", "18446744073709551615", "4294967296", "2147483648", "1E30", "'A'", "T", "", "1000000000000", "-9223372036854775808", "999", "1000", "3.5"];
    const KEYS: [&str; 30] = [
        "BITPIX", "NAXIS", "NAXIS1", "NAXIS2", "PCOUNT", "GCOUNT", "TFIELDS", "THEAP", "TFORM1", "TFORM2", "ZNAXIS", "ZNAXIS1", "ZNAXIS2", "ZTILE1", "ZTILE2", "ZBITPIX", "ZCMPTYPE", "ZQUANTIZ", "ZDITHER0", "ZBLANK", "TTYPE1", "TTYPE2", "ZVAL1", "ZNAME1", "XTENSION", "SIMPLE", "TBCOL1", "ZVAL2", "TTYPE3", "END",
    ];
    const STRS: [&str; 28] = [
        "'1PB'", "'99999999999999999999X'", "'0J'", "'0E'", "'0D'", "'ZZERO'", "'ZBLANK'", "'1QD(5)'", "'P'", "'PZ'", "''", "'", "'A", "'7X'", "'1E'", "'IMAGE'", "'BINTABLE'", "'TABLE'", "'FOO'", "'RICE_1'", "'GZIP_1'", "'GZIP_2'", "'PLI0_1'", "'HCOMPRESS_1'", "'COMPRESSED_DATA'", "'ZSCALE'", "'BLOCKSIZE'", "'18446744073709551615M'",
    ];
    let times = l.range(1, 3);
    for _ in 0..times {
        match l.weighted(&[4, 3, 2, 2, 1, 1]) {
            0 => {
                // a keyword that is there gets another value
                let key = *l.pick(&KEYS);
                let v = if l.chance(2, 3) { *l.pick(&NUMS) } else { *l.pick(&STRS) };
                let want = format!("{key:<8}=");
                for k in 0..n {
                    let c = &mut b[o + 80 * k..o + 80 * k + 80];
                    if c.starts_with(want.as_bytes()) {
                        c.copy_from_slice(&card_bytes(&format!("{key:<8}= {v:>20}")));
                    }
                }
            }
            1 => {
                let k = l.us(n);
                let key = *l.pick(&KEYS);
                let v = if l.chance(1, 2) { *l.pick(&NUMS) } else { *l.pick(&STRS) };
                b[o + 80 * k..o + 80 * k + 80].copy_from_slice(&card_bytes(&format!("{key:<8}= {v}")));
            }
            2 => {
                for _ in 0..l.range(1, 8) {
                    let k = l.us(n * 80);
                    b[o + k] = l.below(256) as u8;
                }
            }
            3 => {
                let k = l.us(n);
                let c = l.us(n);
                let t: Vec<u8> = b[o + 80 * c..o + 80 * c + 80].to_vec();
                b[o + 80 * k..o + 80 * k + 80].copy_from_slice(&t);
            }
            4 => {
                let k = l.us(n);
                let x = *l.pick(&[0u8, 0xff, b' ', b'\'', b'=']);
                for y in &mut b[o + 80 * k..o + 80 * k + 80] {
                    *y = x;
                }
            }
            _ => {
                let k = l.us(n);
                let s = *l.pick(&["CONTINUE  '", "CONTINUE", "HIERARCH", "HIERARCH =", "A       = '", "A       = '''", "HIERARCH A = '", "CONTINUE  'x&'", "        =", "B       = '&'"]);
                b[o + 80 * k..o + 80 * k + 80].copy_from_slice(&card_bytes(s));
            }
        }
    }
    i
}

/// Every way of looking at a header.
fn poke_header(h: &HDU) {
    fn poke<X: fitsrs::hdu::header::extension::Xtension + std::fmt::Debug>(h: &fitsrs::hdu::header::Header<X>) {
        let mut n = 0;
        for c in h.cards() {
            n += format!("{c:?}").len() + c.continued() as usize;
        }
        for (k, v) in h.iter() {
            n += v.unit().map_or(0, str::len) + h.get_keyword(v).map_or(0, str::len);
            n += h.get_parsed::<i64>(k).is_ok() as usize + h.get_parsed::<Option<u8>>(k).is_ok() as usize;
            n += h.get_parsed::<f64>(k).is_ok() as usize + h.get_parsed::<String>(k).is_ok() as usize;
        }
        n += h.history().map(String::len).sum::<usize>() + h.keywords().count();
        n += format!("{:?}", h.get_xtension()).len();
        std::hint::black_box((n, deserialise(h)));
    }
    match h {
        HDU::Primary(h) | HDU::XImage(h) => poke(h.get_header()),
        HDU::XASCIITable(h) => poke(h.get_header()),
        HDU::XBinaryTable(h) => poke(h.get_header()),
    }
}

fn drain_any<R: Rd>(ctx: &mut Ctx, fits: &mut Fits<R>, h: &HDU, cap: usize) {
    let m = match h {
        HDU::XBinaryTable(_) => match ctx.ops.below(6) {
            0 => Mode::TilePixels,
            1 => Mode::Values(None),
            2 => Mode::Rows(None),
            3 => Mode::TileRows,
            4 => Mode::Values(Some((vec![Sel::Index(ctx.ops.us(3)), Sel::Name("RA")], vec![]))),
            _ => Mode::MainBytes,
        },
        HDU::XASCIITable(_) => Mode::Ascii,
        _ => Mode::Image,
    };
    ctx.say(|| format!("  reading as {m:?}"));
    if let Some(mut ss) = open(fits, h, &m) {
        let pre = ctx.ops.us(3);
        for _ in 0..pre {
            let k = ctx.ops.log_below(1 << 40) as usize;
            let _ = ss.read_value(k);
            let _ = ss.seek_to_row(k % 50);
        }
        let mut n = 0;
        while ss.next().is_some() {
            n += 1;
            if n > cap {
                break;
            }
        }
        let _ = ss.next();
    }
}

pub fn c12(ctx: &mut Ctx) -> Check {
    let cfg = GenCfg { prefix: false, w: [3, 1, 3, 3], max_ext: 3, rich_headers: ctx.ops.chance(1, 4), ..GenCfg::default() };
    let f = gen_file(&mut ctx.file, &cfg);
    describe_file(ctx, &f);
    let base_mem = crate::alloc::reset_peak();
    let c = FaultCfg::benign(&mut ctx.ops);
    ctx.set_cfg(c);
    ctx.nontrivial = true;
    // (what is expected, and the choices of the simulator, are in memory too)
    let bound = (64u64 << 20) + 128 * f.bytes.len() as u64;
    if ctx.ops.chance(3, 5) {
        // damaged header: HDUs before it exact, the rest merely contained
        let mut b = f.bytes.to_vec();
        let bad = damage_header(&mut ctx.ops, &f, &mut b);
        let unchanged = b[..] == f.bytes[..];
        if ctx.ops.chance(1, 4) {
            let h = &f.hdus[ctx.ops.us(f.hdus.len())];
            for _ in 0..ctx.ops.range(1, 6) {
                if !h.data.is_empty() && h.hdr_off >= f.hdus[bad].hdr_off {
                    let k = h.data_off as usize + ctx.ops.us(h.data.len());
                    b[k] = ctx.ops.below(256) as u8;
                }
            }
        }
        ctx.count("fault_header_damage");
        ctx.say(|| {
            let h = &f.hdus[bad];
            let mut s = format!("header of HDU {bad} damaged:");
            for k in 0..((h.end_card_end - h.hdr_off) / 80) as usize {
                let o = h.hdr_off as usize + 80 * k;
                if b[o..o + 80] != f.bytes[o..o + 80] {
                    s.push_str(&format!("\n    card {k}: {:?}", String::from_utf8_lossy(&b[o..o + 80]).trim_end()));
                }
            }
            s
        });
        let bytes: Rc<[u8]> = b.into();
        if ctx.ops.chance(1, 5) {
            crate::aprops::damaged_async(ctx, &f, &bytes, bad)?;
            let peak = crate::alloc::peak().saturating_sub(base_mem);
            ensure!(peak <= bound, "memory", "peak memory {peak} bytes on a file of {} bytes", f.bytes.len());
            return Ok(());
        }
        let r = ctx.reader(&bytes, 0, true);
        let mut fits = Fits::from_reader(r);
        let max = bytes.len() / 2880 + 2;
        let mut i = 0;
        loop {
            match fits.next() {
                Some(Ok(h)) => {
                    if i < bad || unchanged {
                        ensure!(i < f.hdus.len(), "damage-ghost", "more HDUs than the file holds");
                        check_shape(&h, &f.hdus[i], i, "damage-earlier")?;
                        check_hdu_header(&h, &f.hdus[i], i, "damage-earlier")?;
                        let s = &f.hdus[i];
                        let m = rand_mode(&mut ctx.ops, s);
                        let exp = expected(s, &m);
                        if !matches!(&s.kind, Kind::Bin(b) if b.naxis1 == 0) && !unchanged {
                            let Some(mut ss) = open(&mut fits, &h, &m) else { return viol("damage-earlier", format!("HDU {i} not presented as {m:?}")) };
                            let n = read_all(&mut ss, &exp, i, "damage-earlier")?;
                            ensure!(n == exp.len(), "damage-earlier", "HDU {i}: {n} of {} items", exp.len());
                        }
                    } else {
                        poke_header(&h);
                        drain_any(ctx, &mut fits, &h, 200_000);
                    }
                    i += 1;
                    ensure!(i <= max, "damage-endless", "more HDUs than blocks in the file");
                }
                Some(Err(_)) => {
                    ensure!(i >= bad, "damage-earlier", "HDU {i} comes before the damage but is reported as an error");
                    ensure!(fits.next().is_none(), "damage-not-fused", "the list goes on after an error");
                    break;
                }
                None => {
                    ensure!(i >= bad, "damage-earlier", "the list ended before the damaged HDU");
                    ensure!(fits.next().is_none(), "damage-not-fused", "the list goes on after its end");
                    break;
                }
            }
        }
    } else {
        // damaged data: every header exact, every other unit exact, fixed-width values follow the bytes
        let (g, hit) = {
            let mut g = scramble_units(&mut ctx.ops, &f);
            if g.1.is_empty() {
                g = scramble_units(&mut ctx.ops, &f);
            }
            g
        };
        ctx.count("fault_data_damage");
        ctx.say(|| format!("data damaged in HDUs {hit:?}"));
        let r = ctx.reader(&g.bytes, 0, true);
        let mut fits = Fits::from_reader(r);
        for (i, s) in g.hdus.iter().enumerate() {
            let h = must_next(&mut fits, s, i, "damage-traversal")?;
            check_hdu_header(&h, s, i, "damage-header")?;
            let m = rand_mode(&mut ctx.ops, &f.hdus[i]);
            let follow = match &s.kind {
                Kind::Image { .. } | Kind::Ascii { .. } => true,
                Kind::Bin(b) => {
                    if b.naxis1 == 0 {
                        continue;
                    }
                    // logical values other than T, F, NUL are not specified
                    let logical = b.cols.iter().any(|c| matches!(c.kind, ColKind::Fixed(Ty::L, _) | ColKind::Vla(Ty::L, _)));
                    (!b.has_vla && !logical) || m == Mode::MainBytes
                }
                Kind::Tile(b, _) => !b.cols.iter().any(|c| matches!(c.kind, ColKind::Fixed(Ty::L, _))) && m != Mode::TilePixels,
            };
            let damaged = hit.contains(&i);
            let Some(mut ss) = open(&mut fits, &h, &m) else { return viol("damage-data", format!("HDU {i} not presented as {m:?}")) };
            if !damaged || follow {
                let exp = if damaged { expected_on(&f.hdus[i], &m, &s.data) } else { expected(&f.hdus[i], &m) };
                let n = read_all(&mut ss, &exp, i, "damage-data")?;
                ensure!(n == exp.len(), "damage-data", "HDU {i} ({m:?}): {n} of {} items", exp.len());
            } else {
                let first = f.hdus[i].data.iter().zip(&s.data).position(|(a, b)| a != b).unwrap_or(usize::MAX) as u64;
                let mut k = 0usize;
                // what lies wholly before the damage is exact; a value that follows a damaged descriptor is not
                let exp = expected(&f.hdus[i], &m);
                let safe = exp.iter().take_while(|e| e.need <= first).count();
                while let Some(o) = ss.next() {
                    if k < safe {
                        ensure!(exp[k].matches(&o), "damage-data", "HDU {i} item {k} lies before the damage: {o:?} instead of {:?}", exp[k].o);
                    }
                    k += 1;
                    if k > 200_000 {
                        break;
                    }
                }
                ensure!(k >= safe, "damage-data", "HDU {i} ({m:?}): only {k} items though {safe} lie before the damage");
            }
        }
        must_end(&mut fits, g.hdus.len(), "damage-end")?;
    }
    let peak = crate::alloc::peak().saturating_sub(base_mem);
    ensure!(peak <= bound, "memory", "peak memory {peak} bytes on a file of {} bytes", f.bytes.len());
    Ok(())
}

// ------------------------------------------------------------------ C13
pub fn proc_byte(off: u64) -> u8 {
    (mix(off >> 3) >> (8 * (off & 7))) as u8
}
/// A table whose descriptors are computed from the row.
#[derive(Clone)]
struct HugeTab {
    data_off: u64,
    naxis1: u64,
    rows: u64,
    heap: u64,
    salt: u64,
    cols: Vec<(u64, Ty, bool)>,
}
impl HugeTab {
    /// number of elements and offset in the heap
    fn desc(&self, row: u64, k: usize) -> (u64, u64) {
        let (_, t, q) = self.cols[k];
        let h = mix(self.salt ^ mix(row ^ ((k as u64) << 56)));
        let lim = if q { self.heap } else { self.heap.min(1 << 31) };
        let n = (h >> 8) % 13;
        let b = t.bytes_of(n as usize) as u64;
        if b > lim {
            return (0, 0);
        }
        let room = lim - b + 1;
        let r = mix(h);
        let off = match h & 7 {
            0 => room - 1,
            1 => r % room.min(100),
            2 | 3 => ((1u64 << 32) + r % 64).saturating_sub(32) % room,
            4 => ((1u64 << 31) + r % 64).saturating_sub(32) % room,
            _ => r % room,
        };
        (n, off)
    }
    fn desc_bytes(&self, row: u64, k: usize) -> Vec<u8> {
        let (n, o) = self.desc(row, k);
        if self.cols[k].2 {
            [n.to_be_bytes(), o.to_be_bytes()].concat()
        } else {
            [(n as u32).to_be_bytes(), (o as u32).to_be_bytes()].concat()
        }
    }
}
/// A file of up to many terabytes whose bytes are computed when asked for.
struct Layout {
    /// given bytes, in order
    segs: Vec<(u64, Vec<u8>)>,
    tabs: Vec<HugeTab>,
}
impl Layout {
    fn fill(&self, pos: u64, buf: &mut [u8]) {
        let end = pos + buf.len() as u64;
        for (k, b) in buf.iter_mut().enumerate() {
            *b = proc_byte(pos + k as u64);
        }
        let mut put = |at: u64, s: &[u8]| {
            let (a, z) = (at.max(pos), (at + s.len() as u64).min(end));
            if a < z {
                buf[(a - pos) as usize..(z - pos) as usize].copy_from_slice(&s[(a - at) as usize..(z - at) as usize]);
            }
        };
        for t in &self.tabs {
            let (a, z) = (pos.max(t.data_off), end.min(t.data_off + t.naxis1 * t.rows));
            if a >= z {
                continue;
            }
            for row in (a - t.data_off) / t.naxis1..=(z - 1 - t.data_off) / t.naxis1 {
                for (k, c) in t.cols.iter().enumerate() {
                    let at = t.data_off + row * t.naxis1 + c.0;
                    if at < end && at + 16 > pos {
                        put(at, &t.desc_bytes(row, k));
                    }
                }
            }
        }
        let i = self.segs.partition_point(|s| s.0 <= pos).saturating_sub(1);
        for s in self.segs[i..].iter().take_while(|s| s.0 < end) {
            put(s.0, &s.1);
        }
    }
    fn bytes(&self, pos: u64, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.fill(pos, &mut v);
        v
    }
}
struct HugeUnit {
    s: HduSpec,
    size: u64,
    tab: Option<HugeTab>,
    /// expected pixels of the first tiles
    tiles: Vec<Vec<i32>>,
}
fn huge_image(l: &mut Lane, i: usize, b: &mut HdrBuilder) -> (Kind, u64) {
    let bitpix = *l.pick(&BITPIX);
    let bp = bytes_per(bitpix);
    let (a, c) = match l.below(5) {
        0 => (l.range(1, 1000), l.range(1, 1000)),
        1 => (l.range(1, 1 << 20), l.range(1, 1 << 20)),
        2 => ((1 << 31) + l.below(5) - 2, l.range(1, 3)),
        3 => (1 + l.log_below(1 << 24), l.range(1, 2)),
        _ => ((1 << 32) / bp + l.below(5) - 2, 1),
    };
    if i == 0 {
        b.logical("SIMPLE", true);
    } else {
        b.xtension("IMAGE", fitsrs::hdu::header::extension::XtensionType::Image);
    }
    b.int("BITPIX", bitpix as i64);
    b.int("NAXIS", 2);
    b.int("NAXIS1", a as i64);
    b.int("NAXIS2", c as i64);
    if i > 0 {
        b.int("PCOUNT", 0);
        b.int("GCOUNT", 1);
    }
    (Kind::Image { bitpix, naxis: vec![a, c] }, a * c * bp)
}
fn huge_rows(l: &mut Lane, width: usize) -> u64 {
    match l.below(4) {
        0 => l.range(1, 1 << 32),
        1 => (1u64 << 32) / width as u64 + l.below(3),
        2 => l.range(1, 1 << 20),
        _ => 1 + l.log_below(1 << 34),
    }
}
fn huge_table(l: &mut Lane, b: &mut HdrBuilder) -> (Kind, u64) {
    let nf = l.range(1, 5) as usize;
    let vla = l.chance(1, 2);
    let tys = [Ty::J, Ty::B, Ty::I, Ty::K, Ty::A, Ty::X, Ty::E, Ty::D, Ty::C, Ty::M];
    let mut cols: Vec<Col> = vec![];
    let mut off = 0;
    for _ in 0..nf {
        let t = *l.pick(&tys);
        let kind = if vla && l.chance(1, 2) { ColKind::Vla(t, l.chance(1, 2)) } else { ColKind::Fixed(t, l.range(1, 20) as usize) };
        let c = Col { kind, name: None, off };
        off += c.width();
        cols.push(c);
    }
    let has_vla = cols.iter().any(|c| matches!(c.kind, ColKind::Vla(..)));
    let rows = huge_rows(l, off);
    let heap = match l.below(4) {
        0 if !has_vla => 0,
        0 => l.below(5000),
        1 => l.log_below(1 << 34),
        _ => l.below(1 << 40),
    };
    let gap = if has_vla && l.chance(1, 3) { l.log_below(1 << 34) } else { 0 };
    let pcount = (heap + gap) as usize;
    b.xtension("BINTABLE", fitsrs::hdu::header::extension::XtensionType::BinTable);
    let main = off as u64 * rows;
    let s = BinSpec { cols, naxis1: off, rows: rows as usize, theap: (main + gap) as usize, pcount, has_vla };
    bin_header(l, b, &s, &mut |_, _| {});
    (Kind::Bin(s), main + gap + heap)
}
/// A tile-compressed image of many rows, of which the first tiles are given.
fn huge_tiles(l: &mut Lane, b: &mut HdrBuilder) -> (Kind, u64, Vec<(u64, Vec<u8>)>, Vec<Vec<i32>>) {
    let w = l.range(1, 40) as usize;
    let q = l.chance(1, 2);
    let mut cols = vec![];
    let mut off = 0;
    if l.chance(1, 2) {
        let c = Col { kind: ColKind::Fixed(Ty::J, l.range(1, 3) as usize), name: None, off };
        off += c.width();
        cols.push(c);
    }
    let dcol = off;
    let c = Col { kind: ColKind::Vla(Ty::B, q), name: Some("COMPRESSED_DATA"), off };
    off += c.width();
    cols.push(c);
    let zbitpix = *l.pick(&[32, 16, 8, -32, -64]);
    let cmp = *l.pick(&["GZIP_1", "RICE_1", "GZIP_2"]);
    let scol = off;
    if zbitpix < 0 {
        for name in ["ZSCALE", "ZZERO"] {
            let c = Col { kind: ColKind::Fixed(Ty::D, 1), name: Some(name), off };
            off += c.width();
            cols.push(c);
        }
    }
    let rows = huge_rows(l, off).max(4);
    let gap = if l.chance(1, 3) { l.log_below(1 << 34) } else { 0 };
    let theap = off as u64 * rows + gap;
    // a lane of slots in the heap, one per tile
    let slot = if q { 1 + l.log_below(1 << 38) } else { 1 + l.log_below(1 << 28) } + 4096;
    let mut segs = vec![];
    let mut tiles = vec![];
    let seed = l.below(1 << 32);
    let order = *l.pick(&[[0u64, 1, 2, 3], [3, 2, 1, 0], [2, 0, 3, 1]]);
    for (t, o) in order.iter().enumerate() {
        let lim = [(8, 256), (16, 32768)].iter().find(|x| x.0 == zbitpix).map_or(100_000, |x| x.1);
        let px: Vec<i32> = (0..w).map(|k| ((mix(seed ^ ((t * 64 + k) as u64)) >> 20) % lim) as i32).collect();
        let z = match cmp {
            "GZIP_1" => gzip(&px.iter().flat_map(|p| p.to_be_bytes()).collect::<Vec<u8>>()),
            // single bytes have no order to shuffle
            "GZIP_2" if zbitpix == 8 => gzip(&px.iter().map(|p| *p as u8).collect::<Vec<u8>>()),
            "GZIP_2" => gzip(&(0..4).flat_map(|k| px.iter().map(move |p| p.to_be_bytes()[k])).collect::<Vec<u8>>()),
            _ => crate::rice::compress(&px, 32, 4),
        };
        let at = o * slot + mix(seed ^ o) % 3000;
        let n = z.len() as u64;
        let d = if q { [n.to_be_bytes(), at.to_be_bytes()].concat() } else { [(n as u32).to_be_bytes(), (at as u32).to_be_bytes()].concat() };
        segs.push(((t * off + dcol) as u64, d));
        segs.push((theap + at, z));
        if zbitpix < 0 {
            segs.push(((t * off + scol) as u64, [0.5f64.to_be_bytes(), 3.0f64.to_be_bytes()].concat()));
        }
        tiles.push(px);
    }
    segs.sort();
    let heap = 4 * slot;
    b.xtension("BINTABLE", fitsrs::hdu::header::extension::XtensionType::BinTable);
    let s = BinSpec { cols, naxis1: off, rows: rows as usize, theap: theap as usize, pcount: (heap + gap) as usize, has_vla: true };
    bin_header(l, b, &s, &mut |_, b| {
        b.logical("ZIMAGE", true);
        b.string("ZCMPTYPE", cmp);
        b.int("ZBITPIX", zbitpix as i64);
        b.int("ZNAXIS", 2);
        b.int("ZNAXIS1", w as i64);
        b.int("ZNAXIS2", rows as i64);
        b.int("ZTILE1", w as i64);
        b.int("ZTILE2", 1);
    });
    let t = TileSpec {
        cmp,
        zbitpix,
        znaxis: vec![w, rows as usize],
        ztile: vec![w, 1],
        ints: vec![],
        floats: vec![],
        tol: vec![],
        tile_starts: vec![],
        image_index: vec![],
        bscale: None,
        has_nan: false,
    };
    (Kind::Tile(s, t), theap + heap, segs, tiles)
}
/// The cells of one row, as the reader should give them.
fn huge_row(lay: &Layout, u: &HugeUnit, b: &BinSpec, row: u64, cols: &[usize], heap: bool) -> Vec<Obs> {
    let base = u.s.data_off + row * b.naxis1 as u64;
    let mut out = vec![];
    for &ci in cols {
        let c = &b.cols[ci];
        let mut cells = |t: Ty, n: usize, at: u64| {
            let by = lay.bytes(at, t.bytes_of(n));
            for k in 0..t.items(n) {
                out.push(Obs::Cell(ci, k, t.decode(&by[k * t.size()..])));
            }
        };
        match c.kind {
            ColKind::Fixed(t, rep) => cells(t, rep, base + c.off as u64),
            ColKind::Vla(t, q) => {
                let d = lay.bytes(base + c.off as u64, c.width());
                let num = |x: &[u8]| x.iter().fold(0u64, |a, b| a << 8 | *b as u64);
                let (n, o) = (num(&d[..d.len() / 2]), num(&d[d.len() / 2..]));
                if heap {
                    cells(t, n as usize, u.s.data_off + b.theap as u64 + o)
                } else {
                    out.push(Obs::Desc(if q { V::Q(n, o) } else { V::P(n, o) }))
                }
            }
        }
    }
    out
}
fn huge_pos(l: &mut Lane, n: u64) -> u64 {
    match l.below(3) {
        0 => l.below(n),
        1 => n - 1,
        _ => l.log_below(n),
    }
}
pub fn c13(ctx: &mut Ctx) -> Check {
    if ctx.ops.chance(1, 400) {
        return crate::aprops::c13_async(ctx);
    }
    huge(ctx, &[3, 1, 4, 2])
}

/// A very large file, judged by what is read from it only: what that may cost is C13's.
pub fn huge_content(ctx: &mut Ctx, w: &[u64]) -> Check {
    ctx.count("very_large_file");
    cost_aside(huge(ctx, w))
}

pub fn cost_aside(r: Check) -> Check {
    match r {
        Err(v) if v.class == "memory" || v.class == "huge-read-through" => Ok(()),
        r => r,
    }
}

/// `w`: how often an image, an ASCII table, a binary table, a tiled image follows the first HDU
fn huge(ctx: &mut Ctx, w: &[u64]) -> Check {
    let n = ctx.file.range(1, 6) as usize;
    let mut at = 0u64;
    let mut units: Vec<HugeUnit> = vec![];
    let mut lay = Layout { segs: vec![], tabs: vec![] };
    for i in 0..n {
        let l = &mut ctx.file;
        let mut b = HdrBuilder::new(l);
        let which = if i == 0 { 0 } else { l.weighted(w) };
        let mut given = vec![];
        let mut tiles = vec![];
        let (kind, size) = match which {
            0 => huge_image(l, i, &mut b),
            1 => {
                let a = l.range(1, 200);
                let c = 1 + l.log_below(1 << 34);
                b.xtension("TABLE", fitsrs::hdu::header::extension::XtensionType::AsciiTable);
                b.int("BITPIX", 8);
                b.int("NAXIS", 2);
                b.int("NAXIS1", a as i64);
                b.int("NAXIS2", c as i64);
                b.int("PCOUNT", 0);
                b.int("GCOUNT", 1);
                b.int("TFIELDS", 0);
                (Kind::Ascii { naxis1: a as usize, rows: c as usize, fields: vec![] }, a * c)
            }
            2 => huge_table(l, &mut b),
            _ => {
                let (k, s, g, t) = huge_tiles(l, &mut b);
                given = g;
                tiles = t;
                (k, s)
            }
        };
        let salt = if which == 2 { l.below(1 << 32) } else { 0 };
        let (hdr, cards, keys, history, end) = b.finish();
        let data_off = at + hdr.len() as u64;
        lay.segs.push((at, hdr.clone()));
        lay.segs.extend(given.into_iter().map(|(o, b)| (data_off + o, b)));
        let tab = match &kind {
            Kind::Bin(s) if s.has_vla => Some(HugeTab {
                data_off,
                naxis1: s.naxis1 as u64,
                rows: s.rows as u64,
                heap: size - s.theap as u64,
                salt,
                cols: s.cols.iter().filter_map(|c| if let ColKind::Vla(t, q) = c.kind { Some((c.off as u64, t, q)) } else { None }).collect(),
            }),
            _ => None,
        };
        lay.tabs.extend(tab.clone());
        units.push(HugeUnit { s: HduSpec { primary: i == 0, kind, cards, keys, history, hdr, data: vec![], hdr_off: at, data_off, end_card_end: at + end, bscale: None }, size, tab, tiles });
        at = data_off + pad_up(size);
    }
    let total = at;
    ctx.say(|| format!("procedural file of {total} bytes, {n} HDUs"));
    for u in &units {
        let d = u.s.describe();
        ctx.mark(crate::tape::hash_str(&d));
        ctx.say(|| format!("  {d} ({} bytes)", u.size));
        ctx.count(match &u.s.kind {
            Kind::Image { .. } => "huge_image",
            Kind::Ascii { .. } => "huge_ascii_table",
            Kind::Bin(_) if u.tab.is_some() => "huge_table_with_heap",
            Kind::Bin(_) => "huge_table",
            Kind::Tile(..) => "huge_tiled_image",
        });
    }
    ctx.nontrivial = total > 1 << 30;
    ctx.extra.add("simulated_file_bytes", total);
    let hdr_bytes: u64 = units.iter().map(|u| u.s.hdr.len() as u64).sum();
    let lay = Rc::new(lay);
    let l2 = lay.clone();
    let f = move |pos: u64, buf: &mut [u8]| l2.fill(pos, buf);
    let mut c = FaultCfg::benign(&mut ctx.ops);
    if c.short == 1 {
        c.short = 3;
        c.short_max = 512;
    }
    ctx.set_cfg(c);
    ctx.ctl.borrow_mut().budget = 200_000;
    let dev = SimDevice { content: Content::Proc(Rc::new(f), total), pos: 0, ctl: ctx.ctl.clone(), id: 0 };
    let which = ctx.ops.weighted(&[3, 4, 1]);
    let mut cap = *ctx.ops.pick(&BUF_CAPS) as u64;
    ctx.mark(which as u64 * 100_000 + cap);
    ctx.say(|| format!("reader: {} capacity {cap}", ["raw device", "BufReader", "GzReader over BufReader"][which]));
    let base_mem = crate::alloc::reset_peak();
    let r = match which {
        0 => {
            cap = 0;
            AnyReader::Raw(dev)
        }
        1 => AnyReader::Buf(std::io::BufReader::with_capacity(cap as usize, dev)),
        _ => {
            ctx.count("through_gz_reader");
            match fitsrs::gz::GzReader::new(std::io::BufReader::with_capacity(cap as usize, dev)) {
                Ok(r) => AnyReader::Gz(r),
                Err(e) => return viol("huge-traversal", format!("not opened: {e:?}")),
            }
        }
    };
    let mut fits = Fits::from_reader(r);
    // what the reading needs: bytes read, places jumped to, bytes of look-ahead
    let (mut need, mut jumps, mut slack) = (2 * hdr_bytes, 2 * n as u64 + 4, 2880 * n as u64 + 8192 + if which == 2 { 40_000 } else { 0 });
    for (i, u) in units.iter().enumerate() {
        let h = match fits.next() {
            Some(Ok(h)) => h,
            o => return viol("huge-traversal", format!("HDU {i}: {:?} instead of the HDU", o.map(|r| r.err()))),
        };
        check_shape_sized(&h, &u.s, i, u.size, "huge-traversal")?;
        check_hdu_header(&h, &u.s, i, "huge-header")?;
        if ctx.ops.chance(1, 3) {
            continue;
        }
        match &u.s.kind {
            Kind::Image { bitpix, .. } => {
                let bp = bytes_per(*bitpix);
                let npx = u.size / bp;
                let mut ss = open(&mut fits, &h, &Mode::Image).unwrap();
                let want = |k: u64| Obs::Px(px_of(*bitpix, &lay.bytes(u.s.data_off + k * bp, bp as usize)));
                let mut at = 0u64;
                for _ in 0..ctx.ops.range(1, 6) {
                    jumps += 2;
                    slack += 1024;
                    if ctx.ops.chance(2, 3) {
                        let k = huge_pos(&mut ctx.ops, npx);
                        ctx.say(|| format!("  HDU {i}: read_value({k})"));
                        match ss.read_value(k as usize) {
                            Some(Ok(o)) => ensure!(o == want(k), "huge-random-access", "HDU {i} pixel {k}: {o:?} instead of {:?}", want(k)),
                            Some(Err(e)) => return viol("huge-random-access", format!("HDU {i}: pixel {k} of {npx} refused: {e}")),
                            None => {}
                        }
                        at = k + 1;
                        need += 2 * bp;
                    } else {
                        for _ in 0..ctx.ops.below(50) {
                            if at >= npx {
                                break;
                            }
                            let o = ss.next();
                            ensure!(o.as_ref() == Some(&want(at)), "huge-data", "HDU {i} pixel {at}: {o:?} instead of {:?}", want(at));
                            at += 1;
                            need += 2 * bp;
                        }
                    }
                }
            }
            Kind::Ascii { .. } => {
                let mut ss = open(&mut fits, &h, &Mode::Ascii).unwrap();
                let k = ctx.ops.below(300).min(u.size);
                jumps += 2;
                slack += 20_000;
                for j in 0..k {
                    let o = ss.next();
                    ensure!(o == Some(Obs::Byte(proc_byte(u.s.data_off + j))), "huge-data", "HDU {i} byte {j}: {o:?}");
                }
            }
            Kind::Tile(b, t) if ctx.ops.chance(2, 3) => {
                let Some(mut ss) = open(&mut fits, &h, &Mode::TilePixels) else { return viol("huge-tiles", format!("HDU {i}: not read as an image")) };
                let k = ctx.ops.us(4 * t.znaxis[0] + 1);
                let used = k.div_ceil(t.znaxis[0]) as u64;
                ctx.say(|| format!("  HDU {i}: {k} pixels of the first tiles"));
                need += used * (b.naxis1 as u64 + 1024);
                jumps += 4 * used;
                slack += 70_000 * used;
                for j in 0..k {
                    let o = ss.next();
                    let v = u.tiles[j / t.znaxis[0]][j % t.znaxis[0]];
                    let w = match t.zbitpix {
                        8 => Obs::Px(V::B(v as u8)),
                        16 => Obs::Px(V::I(v as i16)),
                        32 => Obs::Px(V::J(v)),
                        // exact in single precision
                        _ => Obs::F(v as f64 * 0.5 + 3.0),
                    };
                    ensure!(o.as_ref() == Some(&w), "huge-tiles", "HDU {i} pixel {j}: {o:?} instead of {w:?}");
                }
            }
            Kind::Bin(b) | Kind::Tile(b, _) => {
                let tile = matches!(u.s.kind, Kind::Tile(..));
                let (nc, rows) = (b.cols.len(), b.rows as u64);
                let mut cols: Vec<usize> = (0..nc).collect();
                let mut sel = None;
                if !tile && ctx.ops.chance(1, 3) {
                    cols.retain(|_| ctx.ops.chance(1, 2));
                    if cols.is_empty() {
                        cols.push(ctx.ops.us(nc));
                    }
                    sel = Some((cols.iter().map(|c| Sel::Index(*c)).collect(), cols.clone()));
                    ctx.say(|| format!("  HDU {i}: columns {cols:?}"));
                    ctx.count("huge_selection");
                }
                let mode = if tile { Mode::TileTable } else { Mode::Values(sel) };
                let mut ss = open(&mut fits, &h, &mode).unwrap();
                let by_row = ctx.ops.chance(1, 4);
                for _ in 0..if by_row { 1 } else { ctx.ops.range(1, 5) } {
                    jumps += 2;
                    slack += 1024;
                    let r = huge_pos(&mut ctx.ops, rows);
                    ctx.say(|| format!("  HDU {i}: seek_to_row({r}), by row: {by_row}"));
                    match ss.seek_to_row(r as usize) {
                        Some(Ok(())) => {}
                        o => return viol("huge-random-access", format!("HDU {i}: row {r} of {rows}: {o:?}")),
                    }
                    if by_row {
                        ctx.count("huge_by_row");
                        ss = ss.into_rows();
                        for row in r..(r + ctx.ops.below(6)).min(rows) {
                            let w = huge_row(&lay, u, b, row, &cols, !tile);
                            need += 2 * 16 * (w.len() + cols.len()) as u64;
                            jumps += 3 * cols.len() as u64;
                            let w = Obs::Row(w);
                            let o = ss.next();
                            ensure!(o.as_ref() == Some(&w), "huge-data", "HDU {i} row {row}: {o:?} instead of {w:?}");
                        }
                        break;
                    }
                    let mut left = ctx.ops.below(60);
                    let mut row = r;
                    'rows: while left > 0 && row < rows {
                        jumps += 3 * cols.len() as u64;
                        need += 32 * cols.len() as u64;
                        for w in huge_row(&lay, u, b, row, &cols, !tile) {
                            let o = ss.next();
                            need += 32;
                            ensure!(o.as_ref() == Some(&w), "huge-data", "HDU {i} row {row}: {o:?} instead of {w:?}");
                            left -= 1;
                            if left == 0 {
                                break 'rows;
                            }
                        }
                        // arrays may be empty
                        left = left.saturating_sub(1);
                        row += 1;
                    }
                }
            }
        }
    }
    must_end(&mut fits, n, "huge-end")?;
    let peak = crate::alloc::peak().saturating_sub(base_mem);
    let read = ctx.ctl.borrow().bytes_read;
    // a reader of one's own between the device and the code is the code's business: every reposition
    // may cost a buffer of the usual size, and opening the file some more
    let allowed = need + slack + jumps * 2 * cap.max(16 << 10) + (256 << 10);
    ctx.say(|| format!("{read} bytes read, {allowed} allowed, peak memory {peak}"));
    ensure!(read <= allowed, "huge-read-through", "{read} bytes were read where at most {allowed} are needed");
    ensure!(peak <= (1 << 20) + 4 * cap, "memory", "peak memory {peak} bytes");
    ctx.extra.add("device_bytes_read", read);
    Ok(())
}

// ------------------------------------------------------------------ C15
pub fn c15(ctx: &mut Ctx) -> Check {
    let cfg = GenCfg { prefix: true, w: [3, 1, 3, 2], max_ext: 4, ..GenCfg::default() };
    let f = gen_file(&mut ctx.file, &cfg);
    describe_file(ctx, &f);
    let len = f.bytes.len() as u64;
    // 0 complete file, 1 cut file, 2 one list meets an I/O error
    let scene = ctx.ops.weighted(&[4, 2, 3]);
    let t = if scene == 1 { cut_point(&mut ctx.ops, &f) } else { len };
    let bytes: Rc<[u8]> = if t < len { f.bytes[..t as usize].into() } else { f.bytes.clone() };
    if t < len {
        ctx.say(|| format!("cut at byte {t} of {len}"));
        ctx.count("fault_truncation");
    }
    let mut c = if scene == 2 { rand_fault(&mut ctx.ops, len, true) } else { FaultCfg::benign(&mut ctx.ops) };
    c.sticky = false;
    ctx.set_cfg(c);
    ctx.ctl.borrow_mut().armed = false;
    if scene != 2 && ctx.ops.chance(1, 4) {
        let mut cur = Cursor::new(bytes.to_vec());
        cur.set_position(f.base);
        clones(ctx, &f, t, None, Fits::from_reader(cur))
    } else {
        let mut d = ctx.dev(&bytes);
        d.pos = f.base;
        let victim = if scene == 2 { Some(ctx.ops.us(4)) } else { None };
        clones(ctx, &f, t, victim, Fits::from_reader(d))
    }
}

struct L15<R> {
    fits: Fits<R>,
    /// index of the next HDU
    at: usize,
    /// the list has ended, for good
    over: bool,
    /// the HDU whose data has not been asked for
    cur: Option<(usize, Rc<HDU>)>,
}
/// One step of list k: what it yields must be what the file (and, where that leaves a choice,
/// the first list that got there) says.
fn clone_next<R: Rd>(ctx: &mut Ctx, f: &FileSpec, t: u64, k: usize, l: &mut L15<R>, seen: &mut [Option<bool>]) -> Check {
    let i = l.at;
    let before = ctx.trips();
    let got = l.fits.next();
    let tripped = ctx.trips() > before;
    ctx.say(|| format!("list {k}: next() at HDU {i} -> {}", match &got { None => "end".to_string(), Some(Ok(h)) => kind_of(h).to_string(), Some(Err(e)) => format!("{e:?}") }));
    if l.over {
        // a list at its end may look at the source again, and report that this failed
        ensure!(got.is_none() || tripped && matches!(got, Some(Err(_))), "clone-end", "list {k} had ended but yields {}", if matches!(got, Some(Ok(_))) { "an HDU" } else { "an error" });
        return Ok(());
    }
    if tripped {
        ensure!(matches!(got, Some(Err(_))), "clone-error", "list {k}: the I/O error at HDU {i} was not reported");
        l.over = true;
        l.cur = None;
        return Ok(());
    }
    let ok = match got {
        Some(Ok(h)) => {
            ensure!(i < f.hdus.len(), "clone-end", "list {k}: a {} after the last HDU", kind_of(&h));
            let s = &f.hdus[i];
            ensure!(t >= s.end_card_end, "clone-traversal", "list {k}: HDU {i} is not in the file");
            check_hdu_header(&h, s, i, "clone-header")?;
            if t >= s.data_off {
                check_shape(&h, s, i, "clone-traversal")?;
                l.cur = Some((i, Rc::new(h)));
            } else {
                l.cur = None;
            }
            l.at += 1;
            true
        }
        Some(Err(e)) => {
            ensure!(t < f.bytes.len() as u64, "clone-traversal", "list {k} HDU {i}: {e:?}");
            ensure!(i >= f.hdus.len() || t < f.hdus[i].data_off, "clone-traversal", "list {k} HDU {i}: {e:?} although it is complete");
            l.over = true;
            l.cur = None;
            false
        }
        None => {
            ensure!(i >= f.hdus.len() || t < f.hdus[i].data_off, "clone-traversal", "list {k} ended at HDU {i} of {}", f.hdus.len());
            l.over = true;
            l.cur = None;
            false
        }
    };
    match seen[i] {
        Some(o) => ensure!(o == ok, "clone-traversal", "list {k}: HDU {i} yielded: {ok}, another list: {o}"),
        None => seen[i] = Some(ok),
    }
    Ok(())
}
fn clones<R: Rd + Clone>(ctx: &mut Ctx, f: &FileSpec, t: u64, victim: Option<usize>, first: Fits<R>) -> Check {
    let mut lists: Vec<L15<R>> = vec![L15 { fits: first, at: 0, over: false, cur: None }];
    let mut seen: Vec<Option<bool>> = vec![None; f.hdus.len() + 1];
    let steps = ctx.ops.range(6, 40);
    for _ in 0..steps {
        let k = ctx.ops.us(lists.len());
        ctx.ctl.borrow_mut().armed = victim == Some(k);
        match ctx.ops.weighted(&[4, 3, 2]) {
            0 => {
                ctx.ctl.borrow_mut().ev(9, k as u64, 0);
                clone_next(ctx, f, t, k, &mut lists[k], &mut seen)?;
            }
            1 => {
                // the data of the current HDU, once
                let Some((i, h)) = lists[k].cur.take() else { continue };
                let s = &f.hdus[i];
                if matches!(&s.kind, Kind::Bin(b) if b.naxis1 == 0) {
                    continue;
                }
                let m = rand_mode(&mut ctx.ops, s);
                let exp = expected(s, &m);
                let avail = t.saturating_sub(s.data_off);
                let n = if ctx.ops.chance(1, 2) { exp.len() } else { ctx.ops.us(exp.len() + 1) };
                ctx.say(|| format!("list {k}: {n} of {} items of HDU {i} as {m:?}", exp.len()));
                let before = ctx.trips();
                let Some(mut ss) = open(&mut lists[k].fits, &h, &m) else { return viol("clone-data", format!("HDU {i} not presented as {m:?}")) };
                for e in exp.iter().take(n) {
                    match ss.next() {
                        Some(Obs::IoErr(_)) | None => {
                            ensure!(e.need > avail || ctx.trips() > before, "clone-data", "list {k} HDU {i}: ended early");
                            break;
                        }
                        Some(o) => ensure!(e.matches(&o), "clone-data", "list {k} HDU {i}: {o:?} instead of {:?}", e.o),
                    }
                }
                ctx.extra.add("items_checked", n as u64);
            }
            _ => {
                if lists.len() < 6 {
                    ctx.say(|| format!("list {}: clone of list {k}{}", lists.len(), if lists[k].over { ", which has ended" } else { "" }));
                    ctx.count(if lists[k].over { "clones_of_ended" } else { "clones" });
                    let o = &lists[k];
                    let c = L15 { fits: o.fits.clone(), at: o.at, over: o.over, cur: o.cur.clone() };
                    ensure!(c.fits.get_position_data_unit() == o.fits.get_position_data_unit(), "clone-traversal", "the clone is elsewhere");
                    lists.push(c);
                    ctx.nontrivial = true;
                }
            }
        }
    }
    // everyone finishes
    for k in 0..lists.len() {
        ctx.ctl.borrow_mut().armed = victim == Some(k);
        for _ in 0..f.hdus.len() + 3 {
            clone_next(ctx, f, t, k, &mut lists[k], &mut seen)?;
        }
        ensure!(lists[k].over, "clone-end", "list {k} does not end");
    }
    Ok(())
}
