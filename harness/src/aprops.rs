//! Scenarios on the asynchronous reader, the gzip front end and the image decoder.
use crate::asim::*;
use crate::ensure;
use crate::gen::*;
use crate::obs::*;
use crate::props::*;
use crate::sim::*;
use crate::tape::{mix, Lane};
use fitsrs::gz::GzReader;
use fitsrs::hdu::data::stream::{DataStream, St};
use fitsrs::{AsyncFits, AsyncHDU, Fits};
use futures::StreamExt;
use std::cell::RefCell;
use std::io::{self, BufReader, Read, Write};
use std::rc::Rc;

type AR = futures::io::BufReader<SimAsync>;
type AF = AsyncFits<AR>;

enum Src<'a> {
    Img(DataStream<'a, AR>),
    Bytes(St<'a, AR, u8>),
}
async fn item(s: &mut Src<'_>) -> Option<io::Result<V>> {
    match s {
        Src::Img(DataStream::U8(i)) => i.next().await.map(|r| r.map(|[v]| V::B(v))),
        Src::Img(DataStream::I16(i)) => i.next().await.map(|r| r.map(|[v]| V::I(v))),
        Src::Img(DataStream::I32(i)) => i.next().await.map(|r| r.map(|[v]| V::J(v))),
        Src::Img(DataStream::I64(i)) => i.next().await.map(|r| r.map(|[v]| V::K(v))),
        Src::Img(DataStream::F32(i)) => i.next().await.map(|r| r.map(|[v]| V::E(c32(v)))),
        Src::Img(DataStream::F64(i)) => i.next().await.map(|r| r.map(|[v]| V::D(c64(v)))),
        Src::Bytes(i) => i.next().await.map(|r| r.map(|[v]| V::B(v))),
    }
}
fn source<'a>(f: &'a mut AF, h: &AsyncHDU) -> Src<'a> {
    match h {
        AsyncHDU::Primary(h) | AsyncHDU::XImage(h) => Src::Img(f.get_data(h)),
        AsyncHDU::XASCIITable(h) => Src::Bytes(f.get_data(h)),
        AsyncHDU::XBinaryTable(h) => Src::Bytes(f.get_data(h)),
    }
}
/// number of items of a data unit, item i, and bytes needed for it
fn items(s: &HduSpec) -> (usize, usize) {
    match &s.kind {
        Kind::Image { bitpix, .. } => {
            let b = bytes_per(*bitpix) as usize;
            (s.data.len() / b, b)
        }
        _ => (s.data.len(), 1),
    }
}
fn item_at(s: &HduSpec, k: usize) -> V {
    match &s.kind {
        Kind::Image { bitpix, .. } => {
            let b = bytes_per(*bitpix) as usize;
            px_of(*bitpix, &s.data[k * b..(k + 1) * b])
        }
        _ => V::B(s.data[k]),
    }
}

#[derive(Clone, Copy, Debug)]
enum Plan {
    Skip,
    Part(usize),
    All,
}
fn plans(l: &mut Lane, f: &FileSpec) -> Vec<Plan> {
    f.hdus
        .iter()
        .map(|s| match l.weighted(&[2, 3, 3]) {
            0 => Plan::Skip,
            1 => Plan::Part(l.us(items(s).0 + 1)),
            _ => Plan::All,
        })
        .collect()
}

struct Setup {
    fits: AF,
    f: Rc<FileSpec>,
    plans: Vec<Plan>,
    w: WorldRef,
    ctl: CtlRef,
    k: usize,
    /// give up on a call after this many ticks at most (0: never)
    patience: u64,
    /// bytes of the file that are there
    len: u64,
    tally: Rc<RefCell<Stats>>,
}
struct Start {
    r: AR,
    /// bytes in front of the file
    skip: u64,
    then: Box<dyn FnOnce(AF) -> Setup>,
}

fn setup(ctx: &mut Ctx, w: &WorldRef, f: &Rc<FileSpec>, bytes: &Rc<[u8]>, k: usize, patience: u64, faults: bool, tally: &Rc<RefCell<Stats>>) -> Start {
    let pend = *ctx.ops.pick(&[32u64, 0, 4, 16, 60]);
    let lat = *ctx.ops.pick(&[1u64, 5, 100, 5000]);
    let mut cap = *ctx.ops.pick(&BUF_CAPS);
    if bytes.len() > 100_000 {
        // byte by byte would take too long
        cap = cap.max(512);
        let mut c = ctx.ctl.borrow_mut();
        if c.cfg.short == 1 {
            c.cfg.short = 3;
            c.cfg.short_max = 2879;
        }
    }
    w.borrow_mut().polls += 64 * bytes.len() as u64;
    let p = plans(&mut ctx.ops, f);
    ctx.say(|| format!("task {k}: BufReader(capacity {cap}), pending {pend}/64, latency <= {lat}, patience {patience}, plan {p:?}"));
    ctx.mark(mix(cap as u64 ^ pend << 20 ^ lat << 32));
    let len = bytes.len() as u64;
    // now and then the FITS stream starts further on
    let skip = if !faults && patience == 0 && ctx.ops.chance(1, 8) { *ctx.ops.pick(&[1u64, 0, 79, 2880, 5761, 16384]) } else { 0 };
    let moved: Rc<[u8]>;
    let mut bytes = bytes;
    if skip > 0 {
        ctx.say(|| format!("task {k}: the file follows {skip} other bytes"));
        moved = std::iter::repeat_n(b'#', skip as usize).chain(bytes.iter().copied()).collect();
        bytes = &moved;
    }
    let mut d = ctx.dev(bytes);
    d.id = k as u64;
    let r = futures::io::BufReader::with_capacity(cap, SimAsync::new(d, w, pend, lat));
    let (f, w, ctl, tally) = (f.clone(), w.clone(), ctx.ctl.clone(), tally.clone());
    Start { r, skip, then: Box::new(move |fits| Setup { fits, f, plans: p, w, ctl, k, patience, len, tally }) }
}

/// Call next() on the list, sometimes giving up and calling again.
async fn list_next(t: &mut Setup) -> Option<Result<AsyncHDU, fitsrs::error::Error>> {
    let mut left = if t.patience > 0 { t.ctl.borrow_mut().lane.below(6) } else { 0 };
    loop {
        if left == 0 {
            return t.fits.next().await;
        }
        left -= 1;
        let d = t.ctl.borrow_mut().lane.below(t.patience);
        match timeout(&t.w, d, t.fits.next()).await {
            Some(r) => return r,
            None => {
                let mut c = t.ctl.borrow_mut();
                c.stats.add("fault_cancelled_call", 1);
                let k = t.k;
                c.note(|| format!("task {k}: next() on the list given up"));
            }
        }
    }
}
async fn data_next(s: &mut Src<'_>, w: &WorldRef, ctl: &CtlRef, patience: u64, k: usize) -> Option<Option<io::Result<V>>> {
    let go = patience > 0 && ctl.borrow_mut().lane.chance(1, 8);
    if !go {
        return Some(item(s).await);
    }
    let d = ctl.borrow_mut().lane.below(patience);
    let r = timeout(w, d, Box::pin(item(s))).await;
    if r.is_none() {
        let mut c = ctl.borrow_mut();
        c.stats.add("fault_cancelled_call", 1);
        c.note(|| format!("task {k}: next() on the data given up"));
    }
    r
}

/// One client reading one file.
async fn client(s: Start) -> Check {
    let Start { mut r, skip, then } = s;
    if skip > 0 {
        use fitsrs::hdu::data::AsyncDataBufRead;
        let e = AsyncDataBufRead::<fitsrs::hdu::header::extension::image::Image>::read_n_bytes_exact(&mut r, skip).await;
        ensure!(e.is_ok(), "async-skip", "skipping {skip} bytes in front of the file: {e:?}");
    }
    let mut t = then(AsyncFits::from_reader(r));
    let f = t.f.clone();
    let n = f.hdus.len();
    let trips = |t: &Setup| t.ctl.borrow().trips;
    let cut = t.len < f.bytes.len() as u64;
    for i in 0..=n {
        let t0 = trips(&t);
        let got = list_next(&mut t).await;
        let tripped = trips(&t) > t0;
        let k = t.k;
        t.ctl.borrow_mut().note(|| format!("task {k}: list item {i}: {}", match &got { None => "end", Some(Ok(_)) => "HDU", Some(Err(_)) => "error" }));
        match got {
            Some(Ok(h)) => {
                ensure!(i < n, "async-ghost", "task {k}: an HDU after the last one");
                let s = &f.hdus[i];
                ensure!(t.len >= s.end_card_end, "async-ghost", "task {k} HDU {i}: its header is not in the file");
                check_async(&h, s, i, "async-header")?;
                if t.len < s.data_off {
                    continue;
                }
                let avail = t.len - s.data_off;
                let (cnt, w) = items(s);
                let want = match t.plans[i] {
                    Plan::Skip => continue,
                    Plan::Part(m) => m,
                    Plan::All => cnt,
                };
                let full = t.plans[i] .is_all();
                let t0 = trips(&t);
                let (world, ctl, patience) = (t.w.clone(), t.ctl.clone(), t.patience);
                let mut src = source(&mut t.fits, &h);
                let mut got = 0;
                let mut errs = 0;
                while got < want || full {
                    match data_next(&mut src, &world, &ctl, patience, k).await {
                        None => {
                            // given up: either try again or drop the stream as it is
                            if ctl.borrow_mut().lane.chance(1, 6) {
                                break;
                            }
                        }
                        Some(Some(Ok(v))) => {
                            ensure!(errs == 0, "async-data", "task {k} HDU {i}: a value after an error");
                            ensure!(got < cnt, "async-data", "task {k} HDU {i}: {v:?} after the last of {cnt} items");
                            ensure!(v == item_at(s, got), "async-data", "task {k} HDU {i} item {got}: {v:?} instead of {:?}", item_at(s, got));
                            got += 1;
                        }
                        Some(Some(Err(e))) => {
                            let missing = ((got + 1) * w) as u64 > avail;
                            ensure!(ctl.borrow().trips > t0 || (cut && missing), "async-data-error", "task {k} HDU {i} item {got}: error {e:?} without a cause");
                            errs += 1;
                            ensure!(errs < 4, "async-endless", "task {k} HDU {i}: the data stream never ends after an error");
                        }
                        Some(None) => {
                            if got < cnt {
                                ensure!(errs > 0, "async-data", "task {k} HDU {i}: ended after {got} of {cnt} items without an error");
                            }
                            for _ in 0..2 {
                                let r = item(&mut src).await;
                                ensure!(r.is_none(), "async-data", "task {k} HDU {i}: an item after the end");
                            }
                            break;
                        }
                    }
                    if errs > 0 && !full && ctl.borrow_mut().lane.chance(1, 2) {
                        break;
                    }
                }
                t.tally.borrow_mut().add("items_checked", got as u64);
                if errs > 0 {
                    t.tally.borrow_mut().add("data_errors_seen", 1);
                }
            }
            other => {
                let err = matches!(other, Some(Err(_)));
                if err {
                    ensure!(tripped || cut, "async-spurious", "task {k}: {:?} without a cause at HDU {i}", other.unwrap().err());
                    t.tally.borrow_mut().add("header_errors_seen", 1);
                } else {
                    ensure!(!tripped, "async-silent", "task {k}: the device failed and the list just ended at HDU {i}");
                }
                if !tripped {
                    // no I/O error: the cut alone decides
                    match fate(&f, i, t.len) {
                        Fate::Ok => return viol("async-lost", format!("task {k}: HDU {i} is in the file but the list {}", if err { "reports an error" } else { "ended" })),
                        Fate::Err => ensure!(err, "async-silent", "task {k}: the header of HDU {i} is cut and the list ended without an error"),
                        Fate::End => ensure!(!err, "async-end", "task {k}: an error at the end of a complete list"),
                        Fate::NoneOrErr | Fate::Any => {}
                    }
                }
                for _ in 0..3 {
                    let again = t.fits.next().await;
                    ensure!(again.is_none(), "async-not-fused", "task {k}: the list goes on after {}", if err { "an error" } else { "its end" });
                }
                return Ok(());
            }
        }
    }
    Ok(())
}
impl Plan {
    fn is_all(&self) -> bool {
        matches!(self, Plan::All)
    }
}

fn finish(ctx: &mut Ctx, w: &WorldRef, tasks: Vec<Task>, spurious: u64, tally: Rc<RefCell<Stats>>) -> Check {
    let nt = tasks.len();
    let (r, polls) = execute(&ctx.ctl, w, tasks, spurious);
    ctx.extra.add("polls", polls);
    ctx.sim_time += w.borrow().now;
    for (k, v) in &tally.borrow().counts {
        ctx.extra.add(k, *v);
    }
    let pend = ctx.ctl.borrow().stats.counts.get("fault_pending").copied().unwrap_or(0);
    ctx.nontrivial = pend > 0 || nt > 1;
    r
}

// ------------------------------------------------------------------ C09
pub fn c09(ctx: &mut Ctx) -> Check {
    if ctx.ops.chance(1, 2000) {
        ctx.count("large_file");
        return cost_aside(c13_async(ctx));
    }
    let nt = 1 + ctx.ops.weighted(&[3, 2, 1]);
    let w = world();
    let mut c = FaultCfg::benign(&mut ctx.ops);
    c.intr = 0;
    ctx.set_cfg(c);
    let tally = Rc::new(RefCell::new(Stats::default()));
    let mut tasks: Vec<Task> = vec![];
    for k in 0..nt {
        let cfg = GenCfg { w: [4, 1, 2, 1], max_ext: 4, rich_headers: ctx.ops.chance(1, 6), ..GenCfg::default() };
        let f = Rc::new(gen_file(&mut ctx.file, &cfg));
        describe_file(ctx, &f);
        let b = f.bytes.clone();
        tasks.push(Box::pin(client(setup(ctx, &w, &f, &b, k, 0, false, &tally))));
    }
    let sp = *ctx.ops.pick(&[0u64, 0, 8, 32]);
    finish(ctx, &w, tasks, sp, tally)
}

// ------------------------------------------------------------------ C10
pub fn c10(ctx: &mut Ctx) -> Check {
    let mode = ctx.ops.weighted(&[3, 3, 4]);
    let w = world();
    let nt = if mode == 2 { 1 } else { 1 + ctx.ops.weighted(&[3, 1]) };
    let tally = Rc::new(RefCell::new(Stats::default()));
    let mut tasks: Vec<Task> = vec![];
    let mut c = FaultCfg::benign(&mut ctx.ops);
    c.intr = 0;
    ctx.set_cfg(c);
    for k in 0..nt {
        let cfg = GenCfg { w: [4, 1, 2, 1], max_ext: 4, ..GenCfg::default() };
        let f = Rc::new(gen_file(&mut ctx.file, &cfg));
        describe_file(ctx, &f);
        let mut b = f.bytes.clone();
        let patience = if mode == 0 || ctx.ops.chance(2, 3) { *ctx.ops.pick(&[2u64, 1, 8, 60, 3000]) } else { 0 };
        match mode {
            1 => {
                let t = cut_point(&mut ctx.ops, &f);
                ctx.say(|| format!("task {k}: file cut at {t} of {}", b.len()));
                ctx.count("fault_truncation");
                b = f.bytes[..t as usize].to_vec().into();
            }
            2 => {
                let mut c = rand_fault(&mut ctx.ops, f.bytes.len() as u64, false);
                c.intr = 0;
                if let Trig::Byte(_) = c.trig {
                    if ctx.ops.chance(1, 2) {
                        c.trig = Trig::Byte(cut_point(&mut ctx.ops, &f));
                    }
                }
                ctx.set_cfg(c);
            }
            _ => {}
        }
        tasks.push(Box::pin(client(setup(ctx, &w, &f, &b, k, patience, mode == 2, &tally))));
    }
    let sp = *ctx.ops.pick(&[0u64, 0, 8, 32]);
    finish(ctx, &w, tasks, sp, tally)
}

// ------------------------------------------------------------------ C12, asynchronous
/// Everything a file with a damaged header (that of HDU `bad`) offers is read; what comes before is exact.
async fn damaged_client(mut fits: AF, f: Rc<FileSpec>, bad: usize, most: usize, ctl: CtlRef) -> Check {
    let mut i = 0;
    loop {
        match fits.next().await {
            Some(Ok(h)) => {
                if i < bad {
                    check_async(&h, &f.hdus[i], i, "damage-earlier")?;
                }
                let (how, some) = {
                    let mut c = ctl.borrow_mut();
                    (c.lane.below(3), c.lane.log_below(200_000) as usize)
                };
                let cap = [0, some, 200_000][how as usize];
                let mut src = source(&mut fits, &h);
                let mut n = 0;
                while n < cap {
                    match item(&mut src).await {
                        Some(Ok(v)) => {
                            if i < bad {
                                let cnt = items(&f.hdus[i]).0;
                                ensure!(n < cnt && v == item_at(&f.hdus[i], n), "damage-earlier", "HDU {i} item {n}: {v:?}");
                            }
                            n += 1;
                        }
                        Some(Err(e)) => {
                            ensure!(i >= bad, "damage-earlier", "HDU {i} item {n}: {e:?}");
                            n += 1000;
                        }
                        None => {
                            ensure!(i >= bad || n == items(&f.hdus[i]).0, "damage-earlier", "HDU {i}: ended after {n} items");
                            break;
                        }
                    }
                }
                i += 1;
                ensure!(i <= most, "damage-endless", "more HDUs than blocks in the file");
            }
            Some(Err(_)) => {
                ensure!(i >= bad, "damage-earlier", "HDU {i} comes before the damage but is reported as an error");
                break;
            }
            None => {
                ensure!(i >= bad, "damage-earlier", "the list ended before the damaged HDU");
                break;
            }
        }
    }
    ensure!(fits.next().await.is_none(), "damage-not-fused", "the list goes on after its end or an error");
    Ok(())
}
pub fn damaged_async(ctx: &mut Ctx, f: &FileSpec, bytes: &Rc<[u8]>, bad: usize) -> Check {
    let w = world();
    let mut c = FaultCfg::benign(&mut ctx.ops);
    c.intr = 0;
    ctx.set_cfg(c);
    let cap = *ctx.ops.pick(&BUF_CAPS);
    let pend = *ctx.ops.pick(&[0u64, 2, 16]);
    ctx.say(|| format!("read asynchronously, BufReader(capacity {cap})"));
    ctx.mark(cap as u64);
    let r = futures::io::BufReader::with_capacity(cap, SimAsync::new(ctx.dev(bytes), &w, pend, 20));
    let most = bytes.len() / 2880 + 2;
    let t: Task = Box::pin(damaged_client(AsyncFits::from_reader(r), Rc::new(f.clone()), bad, most, ctx.ctl.clone()));
    let (r, polls) = execute(&ctx.ctl, &w, vec![t], 0);
    ctx.extra.add("polls", polls);
    ctx.sim_time += w.borrow().now;
    r
}

// ------------------------------------------------------------------ C13, asynchronous
/// Large units passed over by reading them, the last one possibly far too large for that; a few
/// values of each. What is held in memory does not depend on the sizes.
///
/// Up to a dozen gigabytes, it has to read through all of it: in that case the buffer is large enough for
/// few reads, and only the headers and what follows them are written into it.
pub fn c13_async(ctx: &mut Ctx) -> Check {
    let n = ctx.file.range(1, 3) as usize;
    let giant = ctx.file.chance(1, 3);
    let mut units: Vec<(HduSpec, u64)> = vec![];
    let mut segs: Vec<(u64, Vec<u8>)> = vec![];
    let mut at = 0u64;
    for i in 0..n {
        let l = &mut ctx.file;
        let mut b = HdrBuilder::new(l);
        let bitpix = *l.pick(&BITPIX);
        let bp = bytes_per(bitpix);
        let size = match () {
            _ if giant => *l.pick(&[1u64 << 32, 1 << 31, 3 << 30, 1 << 33]) + l.below(9000) - 4500,
            _ if i + 1 == n && l.chance(1, 2) => 1u64 << l.range(24, 40),
            _ => l.range(3 << 20, 40 << 20),
        };
        let (a, c) = (size / bp / 4, 4);
        let which = if i > 0 && giant { l.below(3) } else { 0 };
        let (kind, size) = match which {
            0 => {
                if i == 0 {
                    b.logical("SIMPLE", true);
                } else {
                    b.xtension("IMAGE", fitsrs::hdu::header::extension::XtensionType::Image);
                }
                b.int("BITPIX", bitpix as i64);
                b.int("NAXIS", 2);
                b.int("NAXIS1", a as i64);
                b.int("NAXIS2", c);
                if i > 0 {
                    b.int("PCOUNT", 0);
                    b.int("GCOUNT", 1);
                }
                (Kind::Image { bitpix, naxis: vec![a, 4] }, a * 4 * bp)
            }
            1 => {
                b.xtension("TABLE", fitsrs::hdu::header::extension::XtensionType::AsciiTable);
                b.int("BITPIX", 8);
                b.int("NAXIS", 2);
                b.int("NAXIS1", 7);
                b.int("NAXIS2", (size / 7) as i64);
                b.int("PCOUNT", 0);
                b.int("GCOUNT", 1);
                b.int("TFIELDS", 0);
                (Kind::Ascii { naxis1: 7, rows: (size / 7) as usize, fields: vec![] }, size / 7 * 7)
            }
            _ => {
                // any part of it in the heap
                let rows = l.below(size / 4 + 1);
                b.xtension("BINTABLE", fitsrs::hdu::header::extension::XtensionType::BinTable);
                let cols = vec![Col { kind: ColKind::Fixed(Ty::J, 1), name: None, off: 0 }];
                let pcount = (size - rows * 4) as usize;
                let s = BinSpec { cols, naxis1: 4, rows: rows as usize, theap: rows as usize * 4, pcount, has_vla: false };
                bin_header(l, &mut b, &s, &mut |_, _| {});
                (Kind::Bin(s), size)
            }
        };
        let (hdr, cards, keys, history, end) = b.finish();
        let data_off = at + hdr.len() as u64;
        segs.push((at, hdr.clone()));
        units.push((HduSpec { primary: i == 0, kind, cards, keys, history, hdr, data: vec![], hdr_off: at, data_off, end_card_end: at + end, bscale: None }, size));
        at = data_off + pad_up(size);
    }
    let total = at;
    ctx.count("async_traversals");
    ctx.extra.add("simulated_file_bytes", total);
    for (s, size) in &units {
        let d = s.describe();
        ctx.mark(crate::tape::hash_str(&d));
        ctx.say(|| format!("  {d} ({size} bytes)"));
    }
    ctx.nontrivial = true;
    let f = move |pos: u64, buf: &mut [u8]| {
        if giant {
            // what the client looks at; the rest of the buffer is left as it is
            for (o, h) in &segs {
                let (lo, hi) = ((*o).max(pos), (o + h.len() as u64 + 200_000).min(pos + buf.len() as u64));
                for p in lo..hi {
                    buf[(p - pos) as usize] = proc_byte(p);
                }
            }
        } else {
            for (k, b) in buf.iter_mut().enumerate() {
                *b = proc_byte(pos + k as u64);
            }
        }
        for (o, h) in &segs {
            let (lo, hi) = ((*o).max(pos), (o + h.len() as u64).min(pos + buf.len() as u64));
            if lo < hi {
                buf[(lo - pos) as usize..(hi - pos) as usize].copy_from_slice(&h[(lo - o) as usize..(hi - o) as usize]);
            }
        }
    };
    ctx.set_cfg(FaultCfg::default());
    ctx.ctl.borrow_mut().budget = 1_000_000;
    let w = world();
    let cap = if giant { *ctx.ops.pick(&[1usize << 27, 1 << 28, (1 << 26) + 13]) } else { *ctx.ops.pick(&[65536usize, 8192, 1 << 18]) };
    let pend = *ctx.ops.pick(&[2u64, 0, 8]);
    let plan: Vec<usize> = units.iter().map(|_| ctx.ops.log_below(20_000) as usize).collect();
    ctx.say(|| format!("read asynchronously, BufReader(capacity {cap}), pending {pend}/64, values read {plan:?}"));
    let base_mem = crate::alloc::reset_peak();
    let dev = SimDevice { content: Content::Proc(Rc::new(f), total), pos: 0, ctl: ctx.ctl.clone(), id: 0 };
    let r = futures::io::BufReader::with_capacity(cap, SimAsync::new(dev, &w, pend, 50));
    let last_big = !giant && units[n - 1].1 > 64 << 20;
    let t: Task = Box::pin(async move {
        let mut fits = AsyncFits::from_reader(r);
        for (i, (s, size)) in units.iter().enumerate() {
            let h = match fits.next().await {
                Some(Ok(h)) => h,
                o => return viol("huge-traversal", format!("HDU {i}: {:?} instead of the HDU", o.map(|r| r.err()))),
            };
            check_async(&h, s, i, "huge-traversal")?;
            let bitpix = &match &s.kind {
                Kind::Image { bitpix, .. } => *bitpix,
                _ => 8,
            };
            let bp = bytes_per(*bitpix);
            if plan[i] == 0 {
                continue;
            }
            let mut src = source(&mut fits, &h);
            for k in 0..(plan[i] as u64).min(size / bp) {
                let by: Vec<u8> = (0..bp).map(|j| proc_byte(s.data_off + k * bp + j)).collect();
                let want = px_of(*bitpix, &by);
                match item(&mut src).await {
                    Some(Ok(v)) if v == want => {}
                    o => return viol("huge-image", format!("HDU {i} pixel {k}: {o:?} instead of {want:?}")),
                }
            }
        }
        if !last_big {
            ensure!(fits.next().await.is_none(), "huge-traversal", "the list goes on after the last HDU");
        }
        Ok(())
    });
    let (r, polls) = execute(&ctx.ctl, &w, vec![t], 0);
    ctx.extra.add("polls", polls);
    ctx.sim_time += w.borrow().now;
    r?;
    let peak = crate::alloc::peak().saturating_sub(base_mem);
    ctx.say(|| format!("peak memory {peak}"));
    ensure!(peak <= (1 << 20) + 4 * cap as u64, "memory", "peak memory {peak} bytes");
    Ok(())
}

// ------------------------------------------------------------------ C11
/// A gzip file of one member, or of several (concatenated gzip files are one too).
fn gz_bytes(l: &mut Lane, b: &[u8]) -> (Vec<u8>, Vec<usize>) {
    let members = if l.chance(1, 5) { l.range(2, 4) } else { 1 };
    let mut out = vec![];
    let mut ends = vec![];
    let mut at = 0;
    for k in 1..=members {
        let end = if k == members { b.len() } else { at + l.us(b.len() - at + 1) };
        out.extend(gz_member(l, &b[at..end]));
        at = end;
        ends.push(out.len());
    }
    (out, ends)
}
fn gz_member(l: &mut Lane, b: &[u8]) -> Vec<u8> {
    let level = if b.len() > 1 << 20 { *l.pick(&[6u32, 1]) } else { *l.pick(&[6u32, 0, 1, 9]) };
    let mut h = flate2::GzBuilder::new();
    if l.chance(1, 3) {
        h = h.filename("a file.fits");
    }
    if l.chance(1, 4) {
        h = h.comment("comment");
    }
    if l.chance(1, 4) {
        h = h.extra(vec![1, 2, 3, 4, 5]);
    }
    if l.chance(1, 3) {
        h = h.mtime(l.below(1 << 31) as u32);
    }
    let mut e = h.write(Vec::new(), flate2::Compression::new(level));
    e.write_all(b).unwrap();
    e.finish().unwrap()
}

/// Walk a list that may fail but may not lie.
fn walk<R: Rd>(ctx: &mut Ctx, f: &FileSpec, fits: &mut Fits<R>, damaged: bool) -> Check {
    let n = f.hdus.len();
    for i in 0..=n {
        let t0 = ctx.trips();
        match fits.next() {
            Some(Ok(h)) => {
                ensure!(i < n, "gz-ghost", "an HDU after the last one");
                let s = &f.hdus[i];
                check_shape(&h, s, i, "gz-header")?;
                check_hdu_header(&h, s, i, "gz-header")?;
                if matches!(&s.kind, Kind::Bin(b) if b.naxis1 == 0) {
                    continue;
                }
                if s.data.len() > 1 << 20 {
                    // item by item would take too long
                    let take = *ctx.ops.pick(&[0, s.data.len(), s.data.len() / 2]);
                    let mut got = vec![];
                    let r = Read::take(Read::by_ref(fits), take as u64).read_to_end(&mut got);
                    ensure!(r.is_ok() && got[..] == s.data[..take], "gz-data", "HDU {i}: the first {take} bytes of data are read as {} other ones ({r:?})", got.len());
                    continue;
                }
                let m = rand_mode(&mut ctx.ops, s);
                let exp = expected(s, &m);
                let take = match ctx.ops.below(3) {
                    0 => exp.len() + 1,
                    1 => ctx.ops.us(exp.len() + 1),
                    _ => 0,
                };
                ctx.say(|| format!("  HDU {i}: up to {take} of {} items as {m:?}", exp.len()));
                if take == 0 {
                    continue;
                }
                let t0 = ctx.trips();
                let Some(mut ss) = open(fits, &h, &m) else { return viol("gz-data", format!("HDU {i}: not presented as {m:?}")) };
                for k in 0..take {
                    match ss.next() {
                        Some(Obs::IoErr(_)) => {
                            ensure!(ctx.trips() > t0, "gz-data", "HDU {i}: an I/O error the device never raised");
                            break;
                        }
                        Some(o) => {
                            ensure!(k < exp.len(), "gz-data", "HDU {i}: {o:?} after the last item");
                            ensure!(exp[k].matches(&o), "gz-data", "HDU {i} item {k}: {o:?} instead of {:?}", exp[k].o);
                        }
                        None => {
                            ensure!(k == exp.len() || ctx.trips() > t0, "gz-data", "HDU {i}: ended after {k} of {} items", exp.len());
                            break;
                        }
                    }
                }
                ctx.extra.add("items_checked", take.min(exp.len()) as u64);
            }
            Some(Err(e)) => {
                ensure!(damaged || ctx.trips() > t0 || (i == 0 && ctx.trips() > 0), "gz-spurious", "HDU {i}: error {e:?} without a cause");
                return Ok(());
            }
            None => {
                ensure!(i == n || (damaged && i == 0), "gz-lost", "the list ended at HDU {i} of {n}");
                ensure!(ctx.trips() == t0, "gz-silent", "the device failed and the list just ended");
                return Ok(());
            }
        }
    }
    Ok(())
}

/// A file that is small when compressed, and many megabytes large when not.
fn inflating_file(l: &mut Lane) -> FileSpec {
    let cfg = GenCfg { w: [3, 1, 3, 2], ..GenCfg::default() };
    let mut hdus = vec![gen_hdu(l, true, &cfg, 0)];
    let n = match l.weighted(&[5, 4, 1]) {
        0 => l.range(1, 24 << 20),
        1 => l.range(24 << 20, 70 << 20),
        _ => l.range(70 << 20, 140 << 20),
    };
    let mut b = HdrBuilder::new(l);
    b.xtension("IMAGE", fitsrs::hdu::header::extension::XtensionType::Image);
    b.int("BITPIX", 8);
    b.int("NAXIS", 1);
    b.int("NAXIS1", n as i64);
    b.int("PCOUNT", 0);
    b.int("GCOUNT", 1);
    let (hdr, cards, keys, history, end) = b.finish();
    let mut data = vec![l.below(256) as u8; n as usize];
    for k in (0..data.len()).step_by(65_537) {
        data[k] = k as u8;
    }
    let hdr_off = hdus[0].next_off();
    let data_off = hdr_off + hdr.len() as u64;
    hdus.push(HduSpec { primary: false, kind: Kind::Image { bitpix: 8, naxis: vec![n] }, cards, keys, history, hdr, data, hdr_off, data_off, end_card_end: hdr_off + end, bscale: None });
    for _ in 0..l.range(1, 2) {
        let at = hdus.last().unwrap().next_off();
        hdus.push(gen_hdu(l, false, &cfg, at));
    }
    build(hdus, 0, true)
}

/// The file opened by its path, on a simulated file system.
fn by_path(ctx: &mut Ctx, f: &FileSpec, bytes: &Rc<[u8]>, damaged: bool) -> Check {
    ctx.count("opened_by_path");
    let refuse = if ctx.ops.chance(1, 30) { *ctx.ops.pick(&[2, 13, 24]) } else { 0 };
    ctx.say(|| format!("opened by path, open fails with {refuse}"));
    let d = ctx.dev(bytes);
    let (r, _, over) = crate::sysim::with(d, refuse, false, |p| match fitsrs::FITSFile::open(p) {
        Ok(mut fits) => {
            ensure!(refuse == 0, "gz-open", "a file that cannot be opened is read");
            walk(ctx, f, &mut fits, damaged)
        }
        Err(e) => {
            ensure!(refuse != 0 || damaged || ctx.trips() > 0, "gz-open", "error {e:?} without a cause");
            ctx.count("open_refused");
            Ok(())
        }
    });
    ensure!(!over, "no-progress", "the file was read more often than any terminating reading needs");
    r
}
pub fn c11(ctx: &mut Ctx) -> Check {
    let inflating = ctx.ops.chance(1, 5000);
    let gz = inflating || ctx.ops.chance(2, 3);
    let cfg = GenCfg { w: [3, 1, 3, 2], max_ext: 4, big: ctx.ops.chance(1, 10), prefix: !gz, ..GenCfg::default() };
    let f = if inflating { inflating_file(&mut ctx.file) } else { gen_file(&mut ctx.file, &cfg) };
    if inflating {
        ctx.count("inflating_file");
    }
    describe_file(ctx, &f);
    let (mut b, ends): (Vec<u8>, _) = if gz { gz_bytes(&mut ctx.ops, &f.bytes) } else { (f.bytes.to_vec(), vec![]) };
    ctx.say(|| format!("{} bytes on the device, gzip: {gz}, members end at {ends:?}", b.len()));
    if ends.len() > 1 {
        ctx.count("gzip_multi_member");
    }
    ctx.nontrivial = gz && f.hdus.len() > 1;
    let mode = ctx.ops.weighted(&[5, 2, 2, 2]);
    let mut c = FaultCfg::benign(&mut ctx.ops);
    let mut damaged = false;
    match mode {
        1 if gz => {
            let t = match ctx.ops.below(3) {
                0 => ctx.ops.us(b.len()),
                1 => b.len() - 1 - ctx.ops.us(9.min(b.len() - 1)),
                _ => ctx.ops.us(20.min(b.len())),
            };
            // what ends with a member is a complete gzip file
            let t = if ends.contains(&t) { t - 1 } else { t };
            ctx.say(|| format!("compressed stream cut at {t}"));
            ctx.count("fault_truncation");
            b.truncate(t);
            damaged = true;
        }
        2 if gz => {
            let n = ctx.ops.range(1, 3);
            for _ in 0..n {
                let k = match ctx.ops.below(3) {
                    0 => ctx.ops.us(b.len()),
                    1 => b.len() - 1 - ctx.ops.us(8),
                    _ => ctx.ops.us(b.len().min(24)),
                };
                b[k] ^= 1 << ctx.ops.below(8);
                ctx.say(|| format!("compressed byte {k} damaged"));
            }
            ctx.count("fault_bit_flip");
            damaged = true;
        }
        3 => {
            c = rand_fault(&mut ctx.ops, b.len() as u64, true);
        }
        _ => {}
    }
    if inflating && c.short == 1 {
        c.short = 3;
        c.short_max = 512;
    }
    ctx.set_cfg(c);
    // the reader may be handed over past its beginning
    let mut start = f.base;
    if gz && ctx.ops.chance(1, 8) {
        start = *ctx.ops.pick(&[1u64, 2, 80, 2880, 5000]);
        b.splice(0..0, (0..start).map(|k| [0x1f, 0x8b, 8, 0, b'S'][k as usize % 5]));
    }
    if start > 0 {
        ctx.count("reader_past_start");
        ctx.say(|| format!("the stream starts at byte {start}"));
    }
    let bytes: Rc<[u8]> = b.into();
    if start == 0 && ctx.ops.chance(1, 8) {
        return by_path(ctx, &f, &bytes, damaged);
    }
    let cap = *ctx.ops.pick(&BUF_CAPS);
    ctx.mark(cap as u64);
    let mut d = ctx.dev(&bytes);
    d.pos = start;
    let r = match GzReader::new(BufReader::with_capacity(cap, d)) {
        Ok(r) => r,
        Err(e) => {
            ensure!(damaged || ctx.trips() > 0, "gz-open", "error {e:?} without a cause");
            ctx.count("open_refused");
            return Ok(());
        }
    };
    if let (GzReader::GzReader(c), true) = (&r, gz) {
        // what was decompressed is the whole file or there is an error
        ensure!(c.get_ref()[..] == f.bytes[..], "gz-content", "decompressed bytes differ from the file");
    }
    let mut fits = Fits::from_reader(r);
    walk(ctx, &f, &mut fits, damaged)
}

// ------------------------------------------------------------------ C14
struct Picture {
    dim: (u32, u32),
    color: image::ColorType,
    raw: Vec<u8>,
}

type Hints = Option<(Option<image::metadata::Orientation>, image::ExtendedColorType)>;
fn picture<R: io::BufRead + io::Seek>(r: io::Result<image::ImageReader<R>>, stepwise: Option<u8>, most: u64) -> (image::ImageResult<Picture>, Hints) {
    let got = r.map_err(image::ImageError::IoError).map(|mut r| {
        let mut l = image::Limits::no_limits();
        l.max_alloc = Some(most);
        r.limits(l);
        r
    });
    let mut hints = None;
    let got = match stepwise {
        None => got.and_then(|r| r.decode()).map(|i| Picture { dim: (i.width(), i.height()), color: i.color(), raw: i.into_bytes() }),
        Some(fill) => got.and_then(|r| r.into_decoder()).and_then(|mut d| {
            use image::ImageDecoder;
            hints = Some((d.orientation().ok(), d.original_color_type()));
            let (dim, color) = (d.dimensions(), d.color_type());
            if d.total_bytes() > most {
                return Err(image::ImageError::IoError(io::ErrorKind::OutOfMemory.into()));
            }
            let mut raw = vec![fill; d.total_bytes() as usize];
            d.read_image(&mut raw)?;
            Ok(Picture { dim, color, raw })
        }),
    };
    (got, hints)
}
pub fn c14(ctx: &mut Ctx) -> Check {
    fitsrs::image_integration::register_fits_decoding_hook();
    let viewable = !ctx.ops.chance(1, 6);
    let cfg = GenCfg { w: [4, 1, 1, 4], max_ext: 3, viewable, bscale: true, prefix: true, ..GenCfg::default() };
    let f = gen_file(&mut ctx.file, &cfg);
    describe_file(ctx, &f);
    let chosen = f.hdus.iter().position(|s| match &s.kind {
        Kind::Image { .. } => !s.data.is_empty(),
        Kind::Tile(..) => true,
        _ => false,
    });
    let mut len = f.bytes.len() as u64;
    let mut c = FaultCfg::benign(&mut ctx.ops);
    let mut all = f.bytes.to_vec();
    let mut lost = false;
    match ctx.ops.weighted(&[5, 3, 2, 2]) {
        3 => {
            // a damaged header further on does not matter, an earlier one makes it another file
            let bad = damage_header(&mut ctx.ops, &f, &mut all);
            lost = chosen.is_none_or(|c| bad <= c) && all[..] != f.bytes[..];
            ctx.say(|| format!("header of HDU {bad} damaged"));
            ctx.count("fault_header_damage");
        }
        1 => {
            len = match chosen {
                Some(i) if ctx.ops.chance(1, 2) => {
                    let h = &f.hdus[i];
                    h.data_off + ctx.ops.below(h.data.len() as u64 + 2)
                }
                _ => cut_point(&mut ctx.ops, &f),
            }
            .min(len);
            ctx.say(|| format!("file cut at {len}"));
            ctx.count("fault_truncation");
        }
        2 => c = rand_fault(&mut ctx.ops, len, true),
        _ => {}
    }
    ctx.set_cfg(c);
    all.truncate(len as usize);
    let bytes: Rc<[u8]> = all.into();
    let cap = *ctx.ops.pick(&BUF_CAPS);
    ctx.mark(cap as u64);
    let mut d = ctx.dev(&bytes);
    d.pos = f.base;
    let most = 16u64 << 20;
    let base_mem = crate::alloc::reset_peak();
    // in one step, or through the decoder into a buffer that is not blank
    let stepwise = ctx.ops.chance(1, 2).then(|| *ctx.ops.pick(&[0xAAu8, 0xFF, 0]));
    ctx.mark(stepwise.is_some() as u64);
    // recognised by its contents, or by the name of the file
    let ext = (f.base == 0 && ctx.ops.chance(1, 5)).then(|| *ctx.ops.pick(&["fits", "fit", "fts", "fz"]));
    ctx.say(|| format!("opened by name: {ext:?}"));
    let (got, hints) = match ext {
        None => picture(image::ImageReader::new(BufReader::with_capacity(cap, d)).with_guessed_format(), stepwise, most),
        Some(x) => {
            ctx.count("opened_by_path");
            let (r, _, over) = crate::sysim::with(d, 0, false, |p| picture(image::ImageReader::open(format!("{p}.{x}")), stepwise, most));
            ensure!(!over, "no-progress", "the file was read more often than any terminating reading needs");
            r
        }
    };
    if let Some((o, _)) = &hints {
        // the first row of a FITS image is the lowest one
        ensure!(*o == Some(image::metadata::Orientation::FlipVertical), "orientation", "orientation {o:?}");
    }
    let tripped = ctx.trips() > 0;
    ctx.say(|| format!("decode: {}, tripped {tripped}", match &got { Ok(i) => format!("{:?} {:?}", i.color, i.dim), Err(e) => format!("{e:?}") }));
    let peak = crate::alloc::peak().saturating_sub(base_mem);
    // (the recorded choices of the simulator count as well)
    ensure!(peak <= 4 * most + 64 * f.bytes.len() as u64, "memory", "peak memory {peak} bytes for a picture of at most {most}");
    if lost {
        return Ok(());
    }
    // what the picture has to be
    let want = chosen.and_then(|i| {
        let s = &f.hdus[i];
        let (axes, bitpix): (Vec<u64>, i32) = match &s.kind {
            Kind::Image { bitpix, naxis } => (naxis.clone(), *bitpix),
            Kind::Tile(_, t) => (t.znaxis.iter().map(|x| *x as u64).collect(), t.zbitpix),
            _ => unreachable!(),
        };
        let rgb = match axes.get(2..)? {
            [] | [1] => false,
            [3] => true,
            _ => return None,
        };
        let n: usize = axes.iter().product::<u64>() as usize;
        // values in image order with a tolerance, and the end of the bytes they need
        let mut px = vec![(0.0f64, 0.0f64); n];
        let need = match &s.kind {
            Kind::Tile(_, t) => {
                let e = expected(s, &Mode::TilePixels);
                for (k, &at) in t.image_index.iter().enumerate() {
                    px[at] = if bitpix < 0 { (t.floats[k], t.tol[k]) } else { (t.ints[k] as f64, 0.0) };
                }
                // the end of a compressed stream (check sum, length, end of block) carries no pixel
                e.iter().map(|e| e.need).max().unwrap_or(0).saturating_sub(24)
            }
            _ => {
                let b = bytes_per(bitpix) as usize;
                for (k, p) in px.iter_mut().enumerate() {
                    p.0 = match px_of(bitpix, &s.data[k * b..(k + 1) * b]) {
                        V::B(v) => v as f64,
                        V::I(v) => v as f64,
                        V::J(v) => v as f64,
                        V::K(v) => v as f64,
                        V::E(v) => f32::from_bits(v) as f64,
                        V::D(v) => f64::from_bits(v),
                        _ => unreachable!(),
                    };
                }
                s.data.len() as u64
            }
        };
        Some((i, axes[0] as u32, axes[1] as u32, rgb, bitpix, px, s.data_off + need, s.data_off + s.data.len() as u64))
    });
    let Some((i, w, h, rgb, bitpix, px, need, whole)) = want else {
        ensure!(got.is_err(), "decode-accepts", "a picture out of a file without one");
        return Ok(());
    };
    let s = &f.hdus[i];
    ctx.nontrivial = true;
    let img = match got {
        Ok(img) => img,
        Err(e) => {
            ensure!(tripped || len < whole, "decode-refused", "HDU {i}: {e:?} without a cause");
            return Ok(());
        }
    };
    ensure!(len >= need, "decode-incomplete", "HDU {i}: a picture though only {len} of the {need} bytes it needs are there");
    ensure!(img.dim == (w, h), "decode", "HDU {i}: {:?} instead of {w}x{h}", img.dim);
    let color = match (bitpix, rgb) {
        (8, false) => image::ColorType::L8,
        (8, true) => image::ColorType::Rgb8,
        (16, false) => image::ColorType::L16,
        (16, true) => image::ColorType::Rgb16,
        _ => image::ColorType::Rgb32F,
    };
    ensure!(img.color == color, "decode", "HDU {i}: {:?} instead of {color:?}", img.color);
    if let Some((_, c)) = hints {
        ensure!(c == color.into(), "decode", "HDU {i}: original colour {c:?} instead of {color:?}");
    }
    let raw = &img.raw;
    let np = (w * h) as usize;
    let (ch, sz) = match color {
        image::ColorType::L8 => (1, 1),
        image::ColorType::Rgb8 => (3, 1),
        image::ColorType::L16 => (1, 2),
        image::ColorType::Rgb16 => (3, 2),
        _ => (3, 4),
    };
    ensure!(raw.len() == np * ch * sz, "decode", "HDU {i}: {} bytes of picture", raw.len());
    let (bs, bz) = s.bscale.unwrap_or((1.0, 0.0));
    let scaled = s.bscale.is_some_and(|x| x != (1.0, 0.0));
    for p in 0..np {
        for c in 0..ch {
            let (v, tol) = px[if rgb { c * np + p } else { p }];
            let o = (p * ch + c) * sz;
            let (got, want, tol) = match sz {
                1 => (raw[o] as f64, if scaled { (v * bs + bz).round().clamp(0.0, 255.0) } else { v }, 0.0),
                2 => (
                    u16::from_ne_bytes([raw[o], raw[o + 1]]) as f64,
                    if scaled { (v * bs + bz).round().clamp(0.0, 65535.0) } else { v.max(0.0) },
                    0.0,
                ),
                _ => {
                    let g = f32::from_ne_bytes(raw[o..o + 4].try_into().unwrap()) as f64;
                    match bitpix {
                        32 | 64 => {
                            let m = if bitpix == 32 { i32::MAX as f64 } else { i64::MAX as f64 };
                            (g, (v * bs + bz) / m, 3e-7 * ((v * bs).abs() + bz.abs()) / m)
                        }
                        _ => (g, v as f32 as f64, tol),
                    }
                }
            };
            let ok = (got.is_nan() && want.is_nan()) || got == want || (got - want).abs() <= tol;
            ensure!(ok, "decode", "HDU {i} pixel ({},{}) channel {c}: {got} instead of {want}", p as u32 % w, p as u32 / w);
        }
    }
    ctx.extra.add("items_checked", px.len() as u64);
    Ok(())
}
