//! One simulated run: seed or tapes in, verdict and trace out.
use crate::sim::*;
use crate::tape::{hash_str, mix, Lane};
use crate::{aprops, props};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> Check,
    /// runs per tier
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
}
macro_rules! prop {
    ($id:literal, $f:path, $q:literal, $t:literal, $rule:literal) => {
        Prop { id: $id, run: $f, quick: $q, thorough: $t, rule: $rule }
    };
}
pub const PROPS: &[Prop] = &[
    prop!("C01", props::c01, 400000, 60000000, "A run generates a FITS file (1-15 HDUs of every kind) and a delivery schedule (reader kind, buffer capacity, short reads, EINTR) and walks the list against the generator's own layout; non-trivial: more than one HDU."),
    prop!("C02", props::c02, 400000, 60000000, "A run walks a generated file, consuming each data unit in a drawn way (not at all, partly, random access, raw reads past the unit, nonsense bytes, with one I/O error) before asking for the next HDU; non-trivial: more than one HDU."),
    prop!("C03", props::c03, 400000, 60000000, "A run reads images and ASCII tables of a generated file in a drawn history of sequential reads and random accesses under a drawn delivery schedule; non-trivial: at least two items."),
    prop!("C04", props::c04, 400000, 60000000, "A run reads binary tables (all column types, variable-length arrays, heap gaps) by value, by row, by selection and with row seeks under a drawn delivery schedule; non-trivial: more than one value."),
    prop!("C05", props::c05, 400000, 60000000, "A run reads tile-compressed images (RICE_1, GZIP_1, GZIP_2; all tile shapes, quantised and dithered floats, blanks) produced by an independent encoder; non-trivial: at least two tiles."),
    prop!("C06", props::c06, 400000, 60000000, "A run reads headers of generated cards (all value kinds, CONTINUE, HIERARCH, commentary, malformed cards) under a drawn delivery schedule; non-trivial: a header of more than 8 cards."),
    prop!("C07", props::c07, 400000, 60000000, "A run cuts a generated file at a drawn byte (biased to edges of cards, blocks, units) and reads all that is left; non-trivial: the cut leaves at least the first header."),
    prop!("C08", props::c08, 400000, 60000000, "A run injects a transient or permanent I/O error at a drawn read, seek or byte and reads the whole file; non-trivial: the error was delivered."),
    prop!("C09", aprops::c09, 160000, 20000000, "A run lets 1-3 tasks read different files through the asynchronous reader on a simulated executor (random completion times, spurious polls, random task order); non-trivial: a pending read or several tasks."),
    prop!("C10", aprops::c10, 300000, 50000000, "As C09, with calls given up and repeated, files cut, or I/O errors at drawn points; non-trivial: a pending read or several tasks."),
    prop!("C11", aprops::c11, 300000, 50000000, "A run puts a generated file, gzip-compressed or not, on a device with short reads, EINTR, I/O errors, cuts or flipped bits and reads it through the gzip front end; one run in 5000 has a file of up to 140 MB that compresses well; non-trivial: compressed and more than one HDU."),
    prop!("C12", props::c12, 400000, 60000000, "A run damages header cards or data bytes of a generated file and reads everything that is offered, under a memory bound; every run is non-trivial."),
    prop!("C13", props::c13, 300000, 50000000, "A run lays out a procedural file of up to many terabytes (images, tables with and without a heap of up to 2^40 bytes, tiled images, ASCII tables) and reads headers, random pixels, rows, selected columns, variable-length arrays and first tiles of it through a raw device, a BufReader or the gzip front end, counting device bytes and peak memory; non-trivial: the file exceeds 1 GiB."),
    prop!("C14", aprops::c14, 300000, 50000000, "A run decodes a generated file through the image crate's hook, with cuts and I/O errors, and compares every channel; non-trivial: the file holds a viewable image."),
    prop!("C15", props::c15, 300000, 50000000, "A run interleaves traversal and data reads of a list and up to four clones taken at drawn moments; non-trivial: at least one clone."),
    #[cfg(feature = "cli")]
    prop!("C16", crate::cli::c16, 300000, 40000000, "A run puts a generated file on a simulated file system (short reads, EINTR, I/O errors, a file cut or with a damaged header, an open that fails), lets the struct command print its structure and compares that with the generator's own layout; non-trivial: more than one HDU."),
];

pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}

#[derive(Clone, Default, Debug)]
pub struct Tapes {
    pub file: Vec<u64>,
    pub ops: Vec<u64>,
    pub dev: Vec<u64>,
}
impl Tapes {
    pub fn lanes(&self) -> [Lane; 3] {
        [Lane::fixed(self.file.clone()), Lane::fixed(self.ops.clone()), Lane::fixed(self.dev.clone())]
    }
    pub fn len(&self) -> usize {
        self.file.len() + self.ops.len() + self.dev.len()
    }
}
pub fn run_seed(seed: u64, id: &str, i: u64) -> u64 {
    mix(seed ^ mix(hash_str(id) ^ mix(i)))
}
pub fn seed_lanes(s: u64) -> [Lane; 3] {
    [Lane::seeded(mix(s ^ 1)), Lane::seeded(mix(s ^ 2)), Lane::seeded(mix(s ^ 3))]
}

pub struct Outcome {
    pub fail: Option<Violation>,
    pub trace: u64,
    pub nontrivial: bool,
    pub stats: Stats,
    pub sim_time: u64,
    pub desc: Vec<String>,
    pub log: Vec<String>,
    pub tapes: Tapes,
    pub steps: u64,
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((m, l)));
    }));
}

pub fn execute(p: &Prop, lanes: [Lane; 3], verbose: bool) -> Outcome {
    let [file, ops, dev] = lanes;
    let mut ctx = Ctx::new(file, ops, dev, verbose);
    PANIC.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(|| (p.run)(&mut ctx)));
    let fail = match r {
        Ok(Ok(())) => None,
        Ok(Err(v)) => Some(v),
        Err(_) => {
            let (m, l) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if m.contains(STEP_PANIC) {
                Some(Violation { class: "no-progress".into(), detail: "the device was called more often than any terminating reading needs".into() })
            } else {
                let file = l.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("").to_string();
                Some(Violation { class: format!("panic:{file}"), detail: format!("panic at {l}: {m}") })
            }
        }
    };
    // a panic may have left the control block borrowed; the run is over anyway
    let (trace, log, mut stats, devrec, steps) = match ctx.ctl.try_borrow_mut() {
        Ok(mut c) => (c.trace, c.log.take().unwrap_or_default(), c.stats.clone(), std::mem::take(&mut c.lane.rec), c.steps),
        Err(_) => (0, vec![], Stats::default(), vec![], 0),
    };
    for (k, v) in &ctx.extra.counts {
        stats.add(k, *v);
    }
    Outcome {
        fail,
        trace: mix(trace ^ ctx.sig),
        nontrivial: ctx.nontrivial,
        stats,
        sim_time: ctx.sim_time,
        desc: ctx.desc,
        log,
        tapes: Tapes { file: ctx.file.rec, ops: ctx.ops.rec, dev: devrec },
        steps,
    }
}
