//! Observing the library: one lazily pulled sequence of observations per way
//! of reading a data unit, and the sequence the generated file calls for.
use crate::ensure;
use crate::gen::*;
use crate::sim::*;
use crate::tape::Lane;
use fitsrs::card::Value;
use fitsrs::fits::HDU as XHdu;
use fitsrs::hdu::data::bintable::data::BinaryTableData;
use fitsrs::hdu::data::bintable::tile_compressed::pixels::Pixels as TPixels;
use fitsrs::hdu::data::bintable::{ColumnId, DataValue};
use fitsrs::hdu::header::extension::Xtension;
use fitsrs::hdu::header::{Bitpix, Header};
use fitsrs::{Fits, Pixels, TableData, TableRowData, HDU};
use std::fmt::Debug;
use std::io::{BufReader, Read, Seek, Take};

pub trait Rd: Read + Seek + Debug + 'static {}
impl<T: Read + Seek + Debug + 'static> Rd for T {}

#[derive(Clone, Debug, PartialEq)]
pub enum Obs {
    Px(V),
    F(f64),
    Byte(u8),
    Cell(usize, usize, V),
    Desc(V),
    Row(Vec<Obs>),
    /// a read error surfaced by a byte reader
    IoErr(std::io::ErrorKind),
}

#[derive(Clone, Debug)]
pub struct Exp {
    pub o: Obs,
    pub tol: f64,
    /// bytes of the data unit that must be there for this item
    pub need: u64,
}
impl Exp {
    pub fn matches(&self, o: &Obs) -> bool {
        match (&self.o, o) {
            (Obs::F(a), Obs::F(b)) => (a.is_nan() && b.is_nan()) || (a - b).abs() <= self.tol,
            (a, b) => a == b,
        }
    }
}

/// How a data unit is read.
#[derive(Clone, Debug, PartialEq)]
pub enum Mode {
    Image,
    Ascii,
    /// value by value, optionally a selection (column ids as given, resolved columns)
    Values(Option<(Vec<Sel>, Vec<usize>)>),
    Rows(Option<(Vec<Sel>, Vec<usize>)>),
    /// the bytes of the main table
    MainBytes,
    TilePixels,
    TileTable,
    TileRows,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sel {
    Index(usize),
    Name(&'static str),
}
impl Sel {
    fn id(&self) -> ColumnId {
        match self {
            Sel::Index(i) => ColumnId::Index(*i),
            Sel::Name(n) => ColumnId::Name(n),
        }
    }
}

/// A random selection of columns without duplicates, sometimes with ids that do not exist.
pub fn rand_sel(l: &mut Lane, s: &BinSpec) -> (Vec<Sel>, Vec<usize>) {
    let mut sels = vec![];
    let mut cols = vec![];
    for (i, c) in s.cols.iter().enumerate() {
        if l.chance(1, 2) {
            let sel = match c.name {
                Some(n) if l.chance(1, 2) && s.find(n) == Some(i) => Sel::Name(n),
                _ => Sel::Index(i),
            };
            sels.push(sel);
            cols.push(i);
        }
    }
    if l.chance(1, 4) {
        sels.push(*l.pick(&[Sel::Name("NOSUCH"), Sel::Index(999), Sel::Name("R"), Sel::Name("RA_"), Sel::Name("FLUX_"), Sel::Index(s.cols.len()), Sel::Name("")]));
    }
    // given in any order
    for i in (1..sels.len()).rev() {
        let j = l.us(i + 1);
        sels.swap(i, i - j.min(i));
    }
    (sels, cols)
}

pub fn rand_mode(l: &mut Lane, h: &HduSpec) -> Mode {
    match &h.kind {
        Kind::Image { .. } => Mode::Image,
        Kind::Ascii { .. } => Mode::Ascii,
        Kind::Bin(s) => match l.weighted(&[4, 3, 4, 3, 1]) {
            0 => Mode::Values(None),
            1 => Mode::Rows(None),
            2 => Mode::Values(Some(rand_sel(l, s))),
            3 => {
                let sel = rand_sel(l, s);
                // an empty selection makes rows meaningless
                if sel.1.is_empty() { Mode::Values(Some(sel)) } else { Mode::Rows(Some(sel)) }
            }
            _ => Mode::MainBytes,
        },
        Kind::Tile(..) => match l.weighted(&[6, 1, 1]) {
            0 => Mode::TilePixels,
            1 => Mode::TileTable,
            _ => Mode::TileRows,
        },
    }
}

fn cell_obs(c: Cell) -> Exp {
    let o = match c.v {
        V::P(..) | V::Q(..) => Obs::Desc(c.v),
        v => Obs::Cell(c.col, c.idx, v),
    };
    Exp { o, tol: 0.0, need: c.need }
}

pub fn px_of(bitpix: i32, b: &[u8]) -> V {
    match bitpix {
        8 => Ty::B.decode(b),
        16 => Ty::I.decode(b),
        32 => Ty::J.decode(b),
        64 => Ty::K.decode(b),
        -32 => Ty::E.decode(b),
        _ => Ty::D.decode(b),
    }
}

fn table_rows(s: &BinSpec, data: &[u8], cols: &[usize], heap: bool) -> Vec<Exp> {
    s.rows_of(data, cols, heap)
        .into_iter()
        .enumerate()
        .map(|(r, row)| {
            let need = row.iter().map(|c| c.need).max().unwrap_or(0).max(((r + 1) * s.naxis1) as u64);
            Exp { o: Obs::Row(row.into_iter().map(|c| cell_obs(c).o).collect()), tol: 0.0, need }
        })
        .collect()
}

/// What reading `data` (a data unit of `h`) in this mode must deliver.
pub fn expected_on(h: &HduSpec, m: &Mode, data: &[u8]) -> Vec<Exp> {
    match (&h.kind, m) {
        (Kind::Image { bitpix, .. }, _) => {
            let bp = bytes_per(*bitpix) as usize;
            data.chunks_exact(bp)
                .enumerate()
                .map(|(i, c)| Exp { o: Obs::Px(px_of(*bitpix, c)), tol: 0.0, need: ((i + 1) * bp) as u64 })
                .collect()
        }
        (Kind::Ascii { .. }, _) => data.iter().enumerate().map(|(i, b)| Exp { o: Obs::Byte(*b), tol: 0.0, need: i as u64 + 1 }).collect(),
        (Kind::Bin(s), Mode::MainBytes) => data[..s.naxis1 * s.rows]
            .iter()
            .enumerate()
            .map(|(i, b)| Exp { o: Obs::Byte(*b), tol: 0.0, need: i as u64 + 1 })
            .collect(),
        (Kind::Bin(s), m) => {
            let all: Vec<usize> = (0..s.cols.len()).collect();
            let (cols, rows) = match m {
                Mode::Values(None) => (all, false),
                Mode::Rows(None) => (all, true),
                Mode::Values(Some((_, c))) => (c.clone(), false),
                Mode::Rows(Some((_, c))) => (c.clone(), true),
                _ => (all, false),
            };
            if rows {
                table_rows(s, data, &cols, true)
            } else {
                s.rows_of(data, &cols, true).into_iter().flatten().map(cell_obs).collect()
            }
        }
        (Kind::Tile(s, t), m) => {
            let all: Vec<usize> = (0..s.cols.len()).collect();
            match m {
                Mode::TileRows => table_rows(s, data, &all, false),
                Mode::TileTable => s.rows_of(data, &all, false).into_iter().flatten().map(cell_obs).collect(),
                _ => {
                    // need of a tile: its row and its compressed bytes
                    let named = |n| s.cols.iter().position(|c| c.name == Some(n));
                    let dcol = named("COMPRESSED_DATA").or(named("GZIP_COMPRESSED_DATA")).unwrap();
                    let descs = s.rows_of(data, &[dcol], false);
                    let mut out = Vec::with_capacity(t.ints.len());
                    for (r, w) in t.tile_starts.windows(2).enumerate() {
                        let (n, o) = match descs[r][0].v {
                            V::P(n, o) | V::Q(n, o) => (n, o),
                            _ => unreachable!(),
                        };
                        let need = (s.theap as u64).saturating_add(o).saturating_add(n).max(((r + 1) * s.naxis1) as u64);
                        for i in w[0]..w[1] {
                            let v = t.ints[i];
                            out.push(match t.zbitpix {
                                8 => Exp { o: Obs::Px(V::B(v as u8)), tol: 0.0, need },
                                16 => Exp { o: Obs::Px(V::I(v as i16)), tol: 0.0, need },
                                32 => Exp { o: Obs::Px(V::J(v)), tol: 0.0, need },
                                _ => Exp { o: Obs::F(t.floats[i]), tol: t.tol[i], need },
                            });
                        }
                    }
                    out
                }
            }
        }
    }
}
pub fn expected(h: &HduSpec, m: &Mode) -> Vec<Exp> {
    expected_on(h, m, &h.data)
}

pub fn dv(v: DataValue) -> Obs {
    let ix = |c: ColumnId| match c {
        ColumnId::Index(i) => i,
        ColumnId::Name(_) => usize::MAX,
    };
    match v {
        DataValue::Logical { value, column, idx } => Obs::Cell(ix(column), idx, V::L(value)),
        DataValue::Bit { byte, column, idx, bit_idx: 0 } => Obs::Cell(ix(column), idx, V::X(byte)),
        DataValue::Bit { idx, bit_idx, .. } => Obs::Cell(1000 + bit_idx as usize, idx, V::X(0)),
        DataValue::UnsignedByte { value, column, idx } => Obs::Cell(ix(column), idx, V::B(value)),
        DataValue::Short { value, column, idx } => Obs::Cell(ix(column), idx, V::I(value)),
        DataValue::Integer { value, column, idx } => Obs::Cell(ix(column), idx, V::J(value)),
        DataValue::Long { value, column, idx } => Obs::Cell(ix(column), idx, V::K(value)),
        DataValue::Character { value, column, idx } => Obs::Cell(ix(column), idx, V::A(if (value as u32) < 256 { value as u32 as u8 } else { 0 })),
        DataValue::Float { value, column, idx } => Obs::Cell(ix(column), idx, V::E(c32(value))),
        DataValue::Double { value, column, idx } => Obs::Cell(ix(column), idx, V::D(c64(value))),
        DataValue::ComplexFloat { real, imag, column, idx } => Obs::Cell(ix(column), idx, V::C(c32(real), c32(imag))),
        DataValue::ComplexDouble { real, imag, column, idx } => Obs::Cell(ix(column), idx, V::M(c64(real), c64(imag))),
        DataValue::VariableLengthArray32 { num_elems, offset_byte } => Obs::Desc(V::P(num_elems as u64, offset_byte as u64)),
        DataValue::VariableLengthArray64 { num_elems, offset_byte } => Obs::Desc(V::Q(num_elems, offset_byte)),
    }
}

/// A reading in progress.
pub enum Session<'a, R: Rd> {
    Img(Pixels<&'a mut R>),
    Bytes(BufReader<Take<&'a mut R>>),
    Vals(TableData<&'a mut R>),
    Rows(TableRowData<&'a mut R>),
    Tile(TPixels<&'a mut R>),
}

/// Open the data of the current HDU in the given mode. None: the library
/// presented the unit as another kind of data than the mode needs.
pub fn open<'a, R: Rd>(fits: &'a mut Fits<R>, hdu: &HDU, mode: &Mode) -> Option<Session<'a, R>> {
    Some(match hdu {
        HDU::Primary(h) | HDU::XImage(h) => Session::Img(fits.get_data(h).pixels()),
        HDU::XASCIITable(h) => Session::Bytes(fits.get_data(h)),
        HDU::XBinaryTable(h) => {
            let d = fits.get_data(h);
            match (mode, d) {
                (Mode::TilePixels, BinaryTableData::TileCompressed(p)) => Session::Tile(p),
                (Mode::TilePixels, BinaryTableData::Table(_)) => return None,
                (Mode::TileTable, d) => Session::Vals(d.table_data()),
                (Mode::TileRows, d) => Session::Rows(d.row_iter()),
                (Mode::Values(None), d) => Session::Vals(d.table_data()),
                (Mode::Rows(None), d) => Session::Rows(d.row_iter()),
                (Mode::Values(Some((s, _))), d) => {
                    let mut t = d.table_data();
                    let ids: Vec<ColumnId> = s.iter().map(|s| s.id()).collect();
                    t.select_fields(&ids);
                    Session::Vals(t)
                }
                (Mode::Rows(Some((s, _))), d) => {
                    let mut t = d.table_data();
                    let ids: Vec<ColumnId> = s.iter().map(|s| s.id()).collect();
                    t.select_fields(&ids);
                    Session::Rows(t.row_iter())
                }
                (_, d) => Session::Bytes(d.table_data().bytes()),
            }
        }
    })
}

impl<'a, R: Rd> Session<'a, R> {
    pub fn next(&mut self) -> Option<Obs> {
        match self {
            Session::Img(p) => match p {
                Pixels::U8(i) => i.next().map(|v| Obs::Px(V::B(v))),
                Pixels::I16(i) => i.next().map(|v| Obs::Px(V::I(v))),
                Pixels::I32(i) => i.next().map(|v| Obs::Px(V::J(v))),
                Pixels::I64(i) => i.next().map(|v| Obs::Px(V::K(v))),
                Pixels::F32(i) => i.next().map(|v| Obs::Px(V::E(c32(v)))),
                Pixels::F64(i) => i.next().map(|v| Obs::Px(V::D(c64(v)))),
            },
            Session::Bytes(r) => {
                let mut b = [0u8; 1];
                loop {
                    match r.read(&mut b) {
                        Ok(0) => return None,
                        Ok(_) => return Some(Obs::Byte(b[0])),
                        Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
                        Err(e) => return Some(Obs::IoErr(e.kind())),
                    }
                }
            }
            Session::Vals(t) => t.next().map(dv),
            Session::Rows(t) => t.next().map(|r| Obs::Row(r.into_vec().into_iter().map(dv).collect())),
            Session::Tile(p) => match p {
                TPixels::U8(i) => i.next().map(|v| Obs::Px(V::B(v))),
                TPixels::I16(i) => i.next().map(|v| Obs::Px(V::I(v))),
                TPixels::I32(i) => i.next().map(|v| Obs::Px(V::J(v))),
                TPixels::F32(i) => i.next().map(|v| Obs::F(v as f64)),
                TPixels::F64(i) => i.next().map(|v| Obs::F(v as f64)),
            },
        }
    }
    /// Random access; images only.
    pub fn read_value(&mut self, idx: usize) -> Option<Result<Obs, String>> {
        let Session::Img(p) = self else { return None };
        Some(match p {
            Pixels::U8(i) => i.read_value(idx).map(|v| Obs::Px(V::B(v))).map_err(|e| e.to_string()),
            Pixels::I16(i) => i.read_value(idx).map(|v| Obs::Px(V::I(v))).map_err(|e| e.to_string()),
            Pixels::I32(i) => i.read_value(idx).map(|v| Obs::Px(V::J(v))).map_err(|e| e.to_string()),
            Pixels::I64(i) => i.read_value(idx).map(|v| Obs::Px(V::K(v))).map_err(|e| e.to_string()),
            Pixels::F32(i) => i.read_value(idx).map(|v| Obs::Px(V::E(c32(v)))).map_err(|e| e.to_string()),
            Pixels::F64(i) => i.read_value(idx).map(|v| Obs::Px(V::D(c64(v)))).map_err(|e| e.to_string()),
        })
    }
    /// Go on row by row
    pub fn into_rows(self) -> Self {
        match self {
            Session::Vals(t) => Session::Rows(t.row_iter()),
            s => s,
        }
    }
    pub fn select(&mut self, sel: &[Sel]) {
        if let Session::Vals(t) = self {
            let ids: Vec<ColumnId> = sel.iter().map(|s| s.id()).collect();
            t.select_fields(&ids);
        }
    }
    pub fn seek_to_row(&mut self, idx: usize) -> Option<Result<(), String>> {
        let Session::Vals(t) = self else { return None };
        Some(t.seek_to_row(idx).map_err(|e| e.to_string()))
    }
}

pub fn bitpix_num(b: Bitpix) -> i32 {
    match b {
        Bitpix::U8 => 8,
        Bitpix::I16 => 16,
        Bitpix::I32 => 32,
        Bitpix::I64 => 64,
        Bitpix::F32 => -32,
        Bitpix::F64 => -64,
    }
}
pub fn kind_of(h: &HDU) -> &'static str {
    match h {
        HDU::Primary(_) => "primary",
        HDU::XImage(_) => "image",
        HDU::XASCIITable(_) => "ascii",
        HDU::XBinaryTable(_) => "bintable",
    }
}
fn spec_kind(s: &HduSpec) -> &'static str {
    match s.kind_name() {
        "tile" => "bintable",
        k => k,
    }
}

fn off_size<X: Xtension + Debug>(h: &XHdu<X>) -> (u64, u64) {
    (h.get_data_unit_byte_offset(), h.get_data_unit_byte_size())
}

/// Structure of one HDU: kind, place, size, shape.
pub fn check_shape(h: &HDU, s: &HduSpec, i: usize, class: &str) -> Check {
    check_shape_sized(h, s, i, s.data.len() as u64, class)
}
pub fn check_shape_sized(h: &HDU, s: &HduSpec, i: usize, size: u64, class: &str) -> Check {
    ensure!(kind_of(h) == spec_kind(s), class, "HDU {i}: kind {} instead of {}", kind_of(h), spec_kind(s));
    let (o, n) = match h {
        HDU::Primary(h) | HDU::XImage(h) => off_size(h),
        HDU::XASCIITable(h) => off_size(h),
        HDU::XBinaryTable(h) => off_size(h),
    };
    ensure!(o == s.data_off, class, "HDU {i}: data unit at {o} instead of {}", s.data_off);
    ensure!(n == size, class, "HDU {i}: data unit size {n} instead of {size}");
    ensure!(
        h.get_data_unit_byte_offset() == o && h.get_data_unit_byte_size() == n,
        class,
        "HDU {i}: inconsistent offset/size accessors"
    );
    match (h, &s.kind) {
        (HDU::Primary(h), Kind::Image { bitpix, naxis }) | (HDU::XImage(h), Kind::Image { bitpix, naxis }) => {
            let x = h.get_header().get_xtension();
            check_img(x.get_naxis(), bitpix_num(x.get_bitpix()), naxis, *bitpix, i, class)?;
            let n = if naxis.is_empty() { 0 } else { naxis.iter().product::<u64>() };
            ensure!(x.get_num_pixels() == n, class, "HDU {i}: {} pixels instead of {n}", x.get_num_pixels());
        }
        (HDU::XASCIITable(h), Kind::Ascii { rows, naxis1, fields }) => {
            let x = h.get_header().get_xtension();
            let n = x.get_num_rows();
            ensure!(n == *rows, class, "HDU {i}: {n} rows instead of {rows}");
            ensure!(x.get_naxis1() == *naxis1 as u64 && x.get_naxis2() == *rows as u64, class, "HDU {i}: {}x{} instead of {naxis1}x{rows}", x.get_naxis1(), x.get_naxis2());
            ensure!(x.get_tfields() == fields.len() && x.get_num_cols() == fields.len(), class, "HDU {i}: {} fields instead of {}", x.get_tfields(), fields.len());
            let got: Vec<(u64, String)> = x.get_tbcols().iter().copied().zip(x.get_tforms().iter().map(|t| format!("{t:?}"))).collect();
            ensure!(got == *fields, class, "HDU {i}: fields {got:?} instead of {fields:?}");
            ensure!(bitpix_num(x.get_bitpix()) == 8 && x.get_pcount() == 0 && x.get_gcount() == 1, class, "HDU {i}: BITPIX, PCOUNT or GCOUNT");
        }
        (HDU::XBinaryTable(h), Kind::Bin(b)) | (HDU::XBinaryTable(h), Kind::Tile(b, _)) => {
            let x = h.get_header().get_xtension();
            ensure!(x.get_num_rows() == b.rows, class, "HDU {i}: {} rows instead of {}", x.get_num_rows(), b.rows);
            ensure!(x.get_num_cols() == b.cols.len(), class, "HDU {i}: {} columns instead of {}", x.get_num_cols(), b.cols.len());
            let tile = x.get_z_image().is_some();
            ensure!(tile == matches!(s.kind, Kind::Tile(..)), class, "HDU {i}: tile-compressed: {tile}");
            for c in b.cols.iter().take(20) {
                if let Some(n) = c.name {
                    ensure!(x.find_field_by_ttype(n) == b.find(n), class, "HDU {i}: column {n} found at {:?} instead of {:?}", x.find_field_by_ttype(n), b.find(n));
                }
            }
            ensure!(x.find_field_by_ttype("NOSUCH").is_none(), class, "HDU {i}: a column that does not exist was found");
            if let (Some(z), Kind::Tile(_, t)) = (x.get_z_image(), &s.kind) {
                let dims: Vec<u64> = t.znaxis.iter().map(|n| *n as u64).collect();
                check_img(&z.z_naxisn, bitpix_num(z.z_bitpix), &dims, t.zbitpix, i, class)?;
            }
        }
        _ => {}
    }
    Ok(())
}
fn check_img(got: &[u64], gb: i32, want: &[u64], wb: i32, i: usize, class: &str) -> Check {
    ensure!(got == want, class, "HDU {i}: axes {got:?} instead of {want:?}");
    ensure!(gb == wb, class, "HDU {i}: bitpix {gb} instead of {wb}");
    Ok(())
}

/// The cards and values of a header, against those written.
pub fn check_header<X: Xtension + Debug>(h: &Header<X>, s: &HduSpec, i: usize, class: &str) -> Check {
    let got: Vec<_> = h.cards().collect();
    ensure!(got.len() == s.cards.len(), class, "HDU {i}: {} cards instead of {}", got.len(), s.cards.len());
    for (k, (g, w)) in got.iter().zip(&s.cards).enumerate() {
        ensure!(card_eq(g, w), class, "HDU {i} card {k}: {g:?} instead of {w:?}");
    }
    use fitsrs::card::Card;
    // a single card asked for its keyword
    for (k, c) in s.cards.iter().enumerate().skip(i % 4).step_by(4) {
        let Some(b) = s.hdr.get(80 * k..80 * k + 80) else { break };
        let (b, mut kw): (&[u8; 80], [u8; 8]) = (b.try_into().unwrap(), b[..8].try_into().unwrap());
        let g = fitsrs::hdu::header::check_card_keyword(b, &kw);
        match c {
            Card::Value { value, .. } => ensure!(g.as_ref().is_ok_and(|g| val_eq(g, value)), class, "HDU {i} card {k}: {g:?} instead of {value:?}"),
            _ => ensure!(g.is_err(), class, "HDU {i} card {k}: {g:?} though it has no value"),
        }
        kw[7] = if kw[7] == b'Q' { b'P' } else { b'Q' };
        let g = fitsrs::hdu::header::check_card_keyword(b, &kw);
        ensure!(g.is_err(), class, "HDU {i} card {k}: {g:?} for another keyword");
    }
    // a long string put together card by card is the value of its keyword
    for (k, c) in s.cards.iter().enumerate() {
        let (Card::Value { name, .. } | Card::Hierarch { name, .. }) = c else { continue };
        if !c.continued() || !matches!(s.cards.get(k + 1), Some(Card::Continuation { .. })) {
            continue;
        }
        let named = |c: &&Card| matches!(c, Card::Value { name: n, .. } | Card::Hierarch { name: n, .. } if n == name);
        if s.cards.iter().filter(named).count() != 1 {
            continue;
        }
        let mut whole = c.clone();
        let mut more = true;
        for n in &got[k + 1..] {
            // (the record tells, not the string so far, that may have an & of its own at its end)
            if !more || !matches!(n, Card::Continuation { .. }) {
                break;
            }
            more = n.continued();
            if k % 2 == 0 {
                whole = whole.splice((*n).clone());
            } else {
                whole.append(n);
            }
        }
        let (Card::Value { value, .. } | Card::Hierarch { value, .. }) = &whole else { unreachable!() };
        ensure!(h.get(name).is_some_and(|g| val_eq(g, value)), class, "HDU {i}: the cards of {name} put together give {value:?}, the header {:?}", h.get(name));
    }
    for (k, v) in &s.keys {
        let g = h.get(k);
        ensure!(g.is_some_and(|g| val_eq(g, v)), class, "HDU {i} keyword {k}: {g:?} instead of {v:?}");
        check_typed(h, k, v, i, class)?;
        let u = h.get(k).and_then(|v| v.unit());
        ensure!(u == unit_of(v), class, "HDU {i} keyword {k}: unit {u:?} instead of {:?}", unit_of(v));
    }
    // the keyword of a value: the first one that holds it
    for n in [0, s.keys.len() / 2, s.keys.len() - 1] {
        let v = &s.keys[n].1;
        let want = s.keys.iter().find(|(_, w)| w == v).map(|(k, _)| k.as_str());
        let got = h.get_keyword(v);
        ensure!(got == want, class, "HDU {i}: keyword {got:?} for the value {v:?} instead of {want:?}");
    }
    for (k, (gk, gv)) in h.iter().enumerate() {
        ensure!(s.keys.get(k).is_some_and(|(n, v)| n == gk && val_eq(gv, v)), class, "HDU {i}: iterated ({gk}, {gv:?}) at {k}");
    }
    let absent: Result<Option<i64>, _> = h.get_parsed("ABSENT-K");
    ensure!(absent == Ok(None), class, "HDU {i}: optional value of an absent keyword: {absent:?}");
    let got: Vec<String> = h.keywords().cloned().collect();
    let want: Vec<String> = s.keys.iter().map(|(k, _)| k.clone()).collect();
    ensure!(got == want, class, "HDU {i}: keywords {got:?} instead of {want:?}");
    let got: Vec<String> = h.iter().map(|(k, _)| k.to_string()).collect();
    ensure!(got == want, class, "HDU {i}: iterated keywords {got:?} instead of {want:?}");
    // the whole header through serde, as a user's own type would be filled
    use serde::de::{Deserialize, IntoDeserializer};
    let map = std::collections::BTreeMap::<String, AnyV>::deserialize((&**h).into_deserializer());
    let want: std::collections::BTreeMap<String, AnyV> = s.keys.iter().map(|(k, v)| (k.clone(), AnyV::of(v))).collect();
    ensure!(map.as_ref().ok() == Some(&want), class, "HDU {i}: deserialised to {map:?} instead of {want:?}");
    let int = |k: &str| match want.get(k) {
        Some(AnyV::I(n)) => Some(*n),
        _ => None,
    };
    if let (Some(b), Some(n)) = (int("BITPIX"), int("NAXIS")) {
        let u = UserHdr::deserialize((&**h).into_deserializer());
        ensure!(
            u.as_ref().is_ok_and(|u| u.bitpix == b as i8 && u.naxis == n as u64 && u.naxis1 == int("NAXIS1").map(|n| n as u64) && u.absent.is_none()),
            class, "HDU {i}: user type {u:?} instead of {b} {n} {:?}", int("NAXIS1")
        );
    }
    let hist: Vec<String> = h.history().cloned().collect();
    ensure!(hist == s.history, class, "HDU {i}: history {hist:?} instead of {:?}", s.history);
    ensure!(h.get("ABSENT-K").is_none() && h.get_parsed::<i64>("ABSENT-K").is_err(), class, "HDU {i}: value for a keyword that is not there");
    Ok(())
}
/// The header through serde, just to see that it can be tried.
pub fn deserialise<X: Xtension + Debug>(h: &Header<X>) -> bool {
    use serde::de::{Deserialize, IntoDeserializer};
    std::collections::BTreeMap::<String, AnyV>::deserialize((&**h).into_deserializer()).is_ok() | UserHdr::deserialize((&**h).into_deserializer()).is_ok()
}
/// Any value, as a serde visitor sees it.
#[derive(Clone, Debug)]
enum AnyV {
    I(i64),
    F(f64),
    B(bool),
    S(String),
    None,
}
impl PartialEq for AnyV {
    fn eq(&self, o: &AnyV) -> bool {
        match (self, o) {
            (AnyV::I(a), AnyV::I(b)) => a == b,
            (AnyV::F(a), AnyV::F(b)) => a.to_bits() == b.to_bits(),
            (AnyV::B(a), AnyV::B(b)) => a == b,
            (AnyV::S(a), AnyV::S(b)) => a == b,
            (AnyV::None, AnyV::None) => true,
            _ => false,
        }
    }
}
impl AnyV {
    fn of(v: &Value) -> AnyV {
        match v {
            Value::Integer { value, .. } => AnyV::I(*value),
            Value::Float { value, .. } => AnyV::F(*value),
            Value::Logical { value, .. } => AnyV::B(*value),
            Value::String { value, .. } => AnyV::S(value.clone()),
            Value::Undefined => AnyV::None,
            Value::Invalid(s) => AnyV::S(s.clone()),
        }
    }
}
impl<'de> serde::Deserialize<'de> for AnyV {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct Vis;
        impl<'de> serde::de::Visitor<'de> for Vis {
            type Value = AnyV;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("anything")
            }
            fn visit_i64<E>(self, v: i64) -> Result<AnyV, E> {
                Ok(AnyV::I(v))
            }
            fn visit_f64<E>(self, v: f64) -> Result<AnyV, E> {
                Ok(AnyV::F(v))
            }
            fn visit_bool<E>(self, v: bool) -> Result<AnyV, E> {
                Ok(AnyV::B(v))
            }
            fn visit_str<E>(self, v: &str) -> Result<AnyV, E> {
                Ok(AnyV::S(v.to_string()))
            }
            fn visit_unit<E>(self) -> Result<AnyV, E> {
                Ok(AnyV::None)
            }
            fn visit_none<E>(self) -> Result<AnyV, E> {
                Ok(AnyV::None)
            }
        }
        d.deserialize_any(Vis)
    }
}
#[derive(Debug, serde::Deserialize)]
struct UserHdr {
    #[serde(rename = "BITPIX")]
    bitpix: i8,
    #[serde(rename = "NAXIS")]
    naxis: u64,
    #[serde(rename = "NAXIS1")]
    naxis1: Option<u64>,
    #[serde(rename = "ABSENT-K")]
    absent: Option<String>,
}
fn unit_of(v: &Value) -> Option<&str> {
    let (Value::Integer { comment, .. } | Value::Float { comment, .. } | Value::Logical { comment, .. } | Value::String { comment, .. }) = v else { return None };
    let c = comment.as_deref()?.trim_start().strip_prefix('[')?;
    Some(&c[..c.find(']')?])
}
/// Conversions of one value.
fn check_typed<X: Xtension + Debug>(h: &Header<X>, k: &str, v: &Value, i: usize, class: &str) -> Check {
    macro_rules! same {
        ($t:ty, $want:expr) => {{
            let g: Result<$t, _> = h.get_parsed::<$t>(k);
            let w: Option<$t> = $want;
            ensure!(g.as_ref().ok() == w.as_ref(), class, "HDU {i} keyword {k} as {}: {g:?} instead of {w:?}", stringify!($t));
        }};
    }
    match v {
        Value::Integer { value, .. } => {
            same!(i64, Some(*value));
            same!(u64, u64::try_from(*value).ok());
            same!(i32, i32::try_from(*value).ok());
            same!(u8, u8::try_from(*value).ok());
            same!(Option<i64>, Some(Some(*value)));
            same!(f64, Some(*value as f64));
            same!(bool, None);
            same!(String, None);
        }
        Value::Float { value, .. } => {
            let g = h.get_parsed::<f64>(k);
            ensure!(g.as_ref().is_ok_and(|x| x.to_bits() == value.to_bits()), class, "HDU {i} keyword {k} parsed: {g:?} instead of {value}");
            same!(f32, Some(*value as f32));
            same!(Option<f64>, Some(Some(*value)));
            same!(i64, None);
            same!(bool, None);
            same!(String, None);
        }
        Value::Logical { value, .. } => {
            same!(bool, Some(*value));
            same!(Option<bool>, Some(Some(*value)));
            same!(i64, None);
            same!(String, None);
        }
        Value::String { value, .. } => {
            same!(String, Some(value.clone()));
            same!(Option<String>, Some(Some(value.clone())));
            same!(i64, None);
            same!(f64, None);
            same!(bool, None);
        }
        Value::Undefined => {
            same!(Option<i64>, Some(None));
            same!(Option<String>, Some(None));
            same!(i64, None);
            same!(f64, None);
            same!(String, None);
        }
        Value::Invalid(_) => {
            same!(i64, None);
            same!(f64, None);
            same!(bool, None);
        }
    }
    Ok(())
}
fn val_eq(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Float { value: x, comment: c }, Value::Float { value: y, comment: d }) => x.to_bits() == y.to_bits() && c == d,
        _ => a == b,
    }
}
fn card_eq(a: &fitsrs::card::Card, b: &fitsrs::card::Card) -> bool {
    use fitsrs::card::Card::*;
    match (a, b) {
        (Value { name: n, value: v }, Value { name: m, value: w }) => n == m && val_eq(v, w),
        (Hierarch { name: n, value: v }, Hierarch { name: m, value: w }) => n == m && val_eq(v, w),
        _ => a == b,
    }
}
pub fn check_hdu_header(h: &HDU, s: &HduSpec, i: usize, class: &str) -> Check {
    match h {
        HDU::Primary(h) | HDU::XImage(h) => check_header(h.get_header(), s, i, class),
        HDU::XASCIITable(h) => check_header(h.get_header(), s, i, class),
        HDU::XBinaryTable(h) => check_header(h.get_header(), s, i, class),
    }
}
/// same, for an asynchronously read HDU
pub fn check_async(h: &fitsrs::AsyncHDU, s: &HduSpec, i: usize, class: &str) -> Check {
    use fitsrs::AsyncHDU as A;
    let k = match h {
        A::Primary(_) => "primary",
        A::XImage(_) => "image",
        A::XASCIITable(_) => "ascii",
        A::XBinaryTable(_) => "bintable",
    };
    ensure!(k == spec_kind(s), class, "HDU {i}: kind {k} instead of {}", spec_kind(s));
    match (h, &s.kind) {
        (A::Primary(h), Kind::Image { bitpix, naxis }) | (A::XImage(h), Kind::Image { bitpix, naxis }) => {
            let x = h.get_header().get_xtension();
            check_img(x.get_naxis(), bitpix_num(x.get_bitpix()), naxis, *bitpix, i, class)?;
            let n = if naxis.is_empty() { 0 } else { naxis.iter().product::<u64>() };
            ensure!(x.get_num_pixels() == n, class, "HDU {i}: {} pixels instead of {n}", x.get_num_pixels());
            check_header(h.get_header(), s, i, class)
        }
        (A::XASCIITable(h), _) => check_header(h.get_header(), s, i, class),
        (A::XBinaryTable(h), _) => check_header(h.get_header(), s, i, class),
        _ => Ok(()),
    }
}

/// Read everything the session gives and compare with what must come.
/// Returns the number of items delivered.
pub fn read_all<R: Rd>(s: &mut Session<R>, exp: &[Exp], i: usize, class: &str) -> Result<usize, Violation> {
    let mut n = 0;
    while let Some(o) = s.next() {
        if n >= exp.len() {
            return viol(class, format!("HDU {i}: extra item {o:?} after the {n} expected ones"));
        }
        if !exp[n].matches(&o) {
            return viol(class, format!("HDU {i} item {n}: {o:?} instead of {:?}", exp[n].o));
        }
        n += 1;
        if let Session::Rows(t) = &*s {
            ensure!(t.get_row_idx() == n, class, "HDU {i}: row index {} after {n} rows", t.get_row_idx());
        }
    }
    Ok(n)
}
