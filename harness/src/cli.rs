//! The command line tool, on a simulated file system.
use crate::ensure;
use crate::gen::*;
use crate::props::*;
use crate::sim::*;
use std::rc::Rc;

/// The integers of a line, in order.
fn ints(s: &str) -> Vec<u64> {
    s.split(|c: char| !c.is_ascii_digit()).filter_map(|w| w.parse().ok()).collect()
}
fn words(s: &str) -> Vec<&str> {
    s.split(|c: char| !c.is_ascii_alphanumeric()).filter(|w| !w.is_empty()).collect()
}
/// What is printed about HDU i must be what the file says.
fn check_section(sec: &[&str], s: &HduSpec, i: usize) -> Check {
    let text = sec.join("\n");
    ensure!(ints(sec[0]) == [i as u64], "cli-index", "HDU {i} is announced as {:?}", sec[0]);
    let kind = match &s.kind {
        Kind::Image { .. } if s.primary => "PRIMARY",
        Kind::Image { .. } => "IMAGE",
        Kind::Ascii { .. } => "ASCIITABLE",
        _ => "BINTABLE",
    };
    let ty = sec.iter().find(|l| l.contains("type")).copied().unwrap_or("");
    ensure!(words(ty).contains(&kind), "cli-kind", "HDU {i} is a {kind}: {text}");
    let head = sec.iter().find(|l| l.contains("HEAD")).copied().unwrap_or("");
    match &s.kind {
        Kind::Image { bitpix, naxis } => {
            let parts: Vec<&str> = head.split(';').collect();
            ensure!(parts.len() == 3, "cli-shape", "HDU {i}: {head}");
            ensure!(ints(parts[0]) == *naxis, "cli-shape", "HDU {i} has axes {naxis:?}: {head}");
            let b = match bitpix {
                8 => "U8",
                16 => "I16",
                32 => "I32",
                64 => "I64",
                -32 => "F32",
                _ => "F64",
            };
            ensure!(words(parts[1]).contains(&b), "cli-shape", "HDU {i} has pixels {b}: {head}");
            let want = if naxis.is_empty() { vec![0] } else { naxis.clone() };
            ensure!(ints(parts[2]) == want, "cli-shape", "HDU {i} has axes {naxis:?}: {head}");
        }
        Kind::Ascii { rows, fields, .. } => {
            ensure!(ints(head) == [fields.len() as u64, *rows as u64], "cli-shape", "HDU {i} has {} columns and {rows} rows: {head}", fields.len());
        }
        Kind::Bin(b) | Kind::Tile(b, _) => {
            ensure!(ints(head) == [b.cols.len() as u64, b.rows as u64], "cli-shape", "HDU {i} has {} columns and {} rows: {head}", b.cols.len(), b.rows);
        }
    }
    let data = sec.iter().find(|l| l.contains("DATA")).copied().unwrap_or("");
    ensure!(ints(data) == [s.data_off, s.data.len() as u64], "cli-place", "HDU {i} has its data at {} ({} bytes): {data}", s.data_off, s.data.len());
    Ok(())
}

pub fn c16(ctx: &mut Ctx) -> Check {
    let cfg = GenCfg { w: [3, 1, 2, 1], max_ext: 5, rich_headers: ctx.ops.chance(1, 6), ..GenCfg::default() };
    let f = gen_file(&mut ctx.file, &cfg);
    describe_file(ctx, &f);
    ctx.nontrivial = f.hdus.len() > 1;
    let n = f.hdus.len();
    let mut c = FaultCfg::benign(&mut ctx.ops);
    let mut bytes = f.bytes.clone();
    let mut len = bytes.len() as u64;
    let mut bad = n;
    let mut refuse = 0;
    match ctx.ops.weighted(&[4, 3, 3, 2]) {
        1 => {
            len = cut_point(&mut ctx.ops, &f);
            ctx.say(|| format!("cut at byte {len} of {}", f.bytes.len()));
            ctx.count("fault_truncation");
            bytes = f.bytes[..len as usize].into();
        }
        2 => {
            c = rand_fault(&mut ctx.ops, len, true);
            if ctx.ops.chance(1, 8) {
                refuse = *ctx.ops.pick(&[2, 13, 24]);
                ctx.say(|| format!("open fails with {refuse}"));
                ctx.count("fault_open");
            }
        }
        3 => {
            let mut b = f.bytes.to_vec();
            bad = damage_header(&mut ctx.ops, &f, &mut b);
            if b[..] == f.bytes[..] {
                bad = n;
            }
            ctx.say(|| format!("header of HDU {bad} damaged"));
            ctx.count("fault_header_damage");
            bytes = b.into();
        }
        _ => {}
    }
    ctx.set_cfg(c);
    let d = ctx.dev(&Rc::clone(&bytes));
    let (r, out, over) = crate::sysim::with(d, refuse, true, |p| fits_cli::r#struct::Struct { input: p.into() }.exec().map_err(|e| e.to_string()));
    ensure!(!over, "no-progress", "the file was read more often than any terminating reading needs");
    let tripped = ctx.trips() > 0;
    let out = String::from_utf8_lossy(&out).into_owned();
    ctx.say(|| format!("printed:\n{out}result: {r:?}"));
    let mut secs: Vec<Vec<&str>> = vec![];
    for l in out.lines() {
        if l.starts_with("HDU[") {
            secs.push(vec![l]);
        } else if let Some(s) = secs.last_mut() {
            s.push(l);
        } else {
            ensure!(l.trim().is_empty(), "cli-text", "unexpected {l:?}");
        }
    }
    if refuse != 0 {
        ensure!(r.is_err() && secs.is_empty(), "cli-open", "the file cannot be opened: {r:?} {out}");
        return Ok(());
    }
    ctx.extra.add("sections_checked", secs.len().min(bad) as u64);
    ensure!(bad < n || secs.len() <= n, "cli-ghost", "{} HDUs printed, the file has {n}", secs.len());
    for (i, sec) in secs.iter().enumerate().take(bad) {
        check_section(sec, &f.hdus[i], i)?;
    }
    if bad < n {
        ensure!(secs.len() >= bad, "cli-lost", "HDU {} comes before the damage and is not printed", secs.len());
        return Ok(());
    }
    let i = secs.len();
    if tripped {
        ensure!(r.is_err(), "cli-silent", "reading failed after {i} of {n} HDUs and the command succeeded");
        return Ok(());
    }
    match fate(&f, i, len) {
        Fate::Ok => return viol("cli-lost", format!("HDU {i} is in the file and not printed: {r:?}")),
        Fate::Err => ensure!(r.is_err(), "cli-silent", "the header of HDU {i} is cut and the command succeeded"),
        Fate::End => ensure!(r.is_ok(), "cli-error", "the file is complete: {r:?}"),
        Fate::NoneOrErr | Fate::Any => {}
    }
    // what lies behind the cut cannot be known
    ensure!(i == 0 || len >= f.hdus[i - 1].end_card_end, "cli-ghost", "HDU {} is printed but not in the file", i - 1);
    Ok(())
}
