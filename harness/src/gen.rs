//! Generator of FITS files together with what a correct reader must report.
//! Everything expected is built from the generated structure, never by parsing.
use crate::rice;
use crate::tape::{mix, Lane, Rng};
use fitsrs::card::{Card, Value};
use fitsrs::hdu::header::extension::XtensionType;
use flate2::write::GzEncoder;
use flate2::Compression;
use std::io::Write;
use std::rc::Rc;

pub const BLOCK: u64 = 2880;
pub fn pad_up(n: u64) -> u64 {
    n.div_ceil(BLOCK) * BLOCK
}

// ---------------------------------------------------------------- values
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum V {
    L(bool),
    X(u8),
    B(u8),
    I(i16),
    J(i32),
    K(i64),
    A(u8),
    E(u32),
    D(u64),
    C(u32, u32),
    M(u64, u64),
    P(u64, u64),
    Q(u64, u64),
}
pub fn c32(x: f32) -> u32 {
    if x.is_nan() {
        0x7fc0_0000
    } else {
        x.to_bits()
    }
}
pub fn c64(x: f64) -> u64 {
    if x.is_nan() {
        0x7ff8_0000_0000_0000
    } else {
        x.to_bits()
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ty {
    L, X, B, I, J, K, A, E, D, C, M,
}
pub const TYS: [Ty; 11] = [Ty::J, Ty::B, Ty::I, Ty::K, Ty::E, Ty::D, Ty::A, Ty::L, Ty::X, Ty::C, Ty::M];
impl Ty {
    pub fn ch(self) -> char {
        match self {
            Ty::L => 'L', Ty::X => 'X', Ty::B => 'B', Ty::I => 'I', Ty::J => 'J', Ty::K => 'K',
            Ty::A => 'A', Ty::E => 'E', Ty::D => 'D', Ty::C => 'C', Ty::M => 'M',
        }
    }
    /// bytes of one element (X: see bytes_of)
    pub fn size(self) -> usize {
        match self {
            Ty::L | Ty::X | Ty::B | Ty::A => 1,
            Ty::I => 2,
            Ty::J | Ty::E => 4,
            Ty::K | Ty::D | Ty::C => 8,
            Ty::M => 16,
        }
    }
    pub fn bytes_of(self, repeat: usize) -> usize {
        if self == Ty::X {
            repeat.div_ceil(8)
        } else {
            repeat * self.size()
        }
    }
    /// Number of values the reader delivers for `repeat` elements
    pub fn items(self, repeat: usize) -> usize {
        if self == Ty::X {
            repeat.div_ceil(8)
        } else {
            repeat
        }
    }
    pub fn decode(self, b: &[u8]) -> V {
        let u16_ = || u16::from_be_bytes([b[0], b[1]]);
        let u32_ = |o: usize| u32::from_be_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]]);
        let u64_ = |o: usize| ((u32_(o) as u64) << 32) | u32_(o + 4) as u64;
        match self {
            Ty::L => V::L(b[0] != 0 && b[0] != b'F'),
            Ty::X => V::X(b[0]),
            Ty::B => V::B(b[0]),
            Ty::A => V::A(b[0]),
            Ty::I => V::I(u16_() as i16),
            Ty::J => V::J(u32_(0) as i32),
            Ty::K => V::K(u64_(0) as i64),
            Ty::E => V::E(c32(f32::from_bits(u32_(0)))),
            Ty::D => V::D(c64(f64::from_bits(u64_(0)))),
            Ty::C => V::C(c32(f32::from_bits(u32_(0))), c32(f32::from_bits(u32_(4)))),
            Ty::M => V::M(c64(f64::from_bits(u64_(0))), c64(f64::from_bits(u64_(8)))),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum ColKind {
    Fixed(Ty, usize),
    /// variable-length array; true = 64-bit descriptor
    Vla(Ty, bool),
}
#[derive(Clone, Debug)]
pub struct Col {
    pub kind: ColKind,
    pub name: Option<&'static str>,
    pub off: usize,
}
impl Col {
    pub fn width(&self) -> usize {
        match self.kind {
            ColKind::Fixed(t, r) => t.bytes_of(r),
            ColKind::Vla(_, q) => if q { 16 } else { 8 },
        }
    }
}

#[derive(Clone, Debug)]
pub struct BinSpec {
    pub cols: Vec<Col>,
    pub naxis1: usize,
    pub rows: usize,
    pub theap: usize,
    pub pcount: usize,
    pub has_vla: bool,
}
/// One value of a table cell: (column, index in the cell, value, byte range end in the data unit)
#[derive(Clone, Debug, PartialEq)]
pub struct Cell {
    pub col: usize,
    pub idx: usize,
    pub v: V,
    /// the value needs the data unit's bytes up to here (exclusive)
    pub need: u64,
}

impl BinSpec {
    /// the first column of that name
    pub fn find(&self, name: &str) -> Option<usize> {
        self.cols.iter().position(|c| c.name == Some(name))
    }
    /// Decode every row of `data` (the data unit) for the given columns.
    /// `heap`: follow descriptors (true) or return them (false).
    pub fn rows_of(&self, data: &[u8], cols: &[usize], heap: bool) -> Vec<Vec<Cell>> {
        let mut out = Vec::with_capacity(self.rows);
        for r in 0..self.rows {
            let mut row = vec![];
            for &c in cols {
                let col = &self.cols[c];
                let p = r * self.naxis1 + col.off;
                match col.kind {
                    ColKind::Fixed(t, rep) => {
                        for i in 0..t.items(rep) {
                            let o = p + i * t.size();
                            row.push(Cell { col: c, idx: i, v: t.decode(&data[o..o + t.size()]), need: (o + t.size()) as u64 });
                        }
                    }
                    ColKind::Vla(t, q) => {
                        let be32 = |o: usize| u32::from_be_bytes([data[o], data[o + 1], data[o + 2], data[o + 3]]) as u64;
                        let (n, off, w) = if q {
                            ((be32(p) << 32) | be32(p + 4), (be32(p + 8) << 32) | be32(p + 12), 16)
                        } else {
                            (be32(p), be32(p + 4), 8)
                        };
                        if !heap {
                            row.push(Cell { col: c, idx: 0, v: if q { V::Q(n, off) } else { V::P(n, off) }, need: (p + w) as u64 });
                        } else {
                            let base = self.theap + off as usize;
                            for i in 0..t.items(n as usize) {
                                let o = base + i * t.size();
                                row.push(Cell { col: c, idx: i, v: t.decode(&data[o..o + t.size()]), need: (o + t.size()).max(p + w) as u64 });
                            }
                        }
                    }
                }
            }
            out.push(row);
        }
        out
    }
}

#[derive(Clone, Debug)]
pub struct TileSpec {
    pub cmp: &'static str,
    pub zbitpix: i32,
    pub znaxis: Vec<usize>,
    pub ztile: Vec<usize>,
    /// expected pixels, in the order the tiles are stored (tile after tile)
    pub ints: Vec<i32>,
    /// for quantized floats
    pub floats: Vec<f64>,
    pub tol: Vec<f64>,
    /// start index (in pixels) of each tile, plus the total
    pub tile_starts: Vec<usize>,
    /// for each pixel in tile order, its index in the image
    pub image_index: Vec<usize>,
    pub bscale: Option<(f64, f64)>,
    pub has_nan: bool,
}

#[derive(Clone, Debug)]
pub enum Kind {
    Image { bitpix: i32, naxis: Vec<u64> },
    /// fields: first column (from 1) and format, as the reader's type prints it
    Ascii { naxis1: usize, rows: usize, fields: Vec<(u64, String)> },
    Bin(BinSpec),
    Tile(BinSpec, TileSpec),
}

#[derive(Clone, Debug)]
pub struct HduSpec {
    pub primary: bool,
    pub kind: Kind,
    pub cards: Vec<Card>,
    pub keys: Vec<(String, Value)>,
    pub history: Vec<String>,
    pub hdr: Vec<u8>,
    pub data: Vec<u8>,
    /// absolute offsets in the stream
    pub hdr_off: u64,
    pub data_off: u64,
    pub end_card_end: u64,
    pub bscale: Option<(f64, f64)>,
}
impl HduSpec {
    pub fn next_off(&self) -> u64 {
        self.data_off + pad_up(self.data.len() as u64)
    }
    pub fn kind_name(&self) -> &'static str {
        match (&self.kind, self.primary) {
            (Kind::Image { .. }, true) => "primary",
            (Kind::Image { .. }, false) => "image",
            (Kind::Ascii { .. }, _) => "ascii",
            (Kind::Bin(_), _) => "bintable",
            (Kind::Tile(..), _) => "tile",
        }
    }
    pub fn describe(&self) -> String {
        let k = match &self.kind {
            Kind::Image { bitpix, naxis } => format!("bitpix {bitpix} naxis {naxis:?}"),
            Kind::Ascii { naxis1, rows, fields } => format!("{naxis1}x{rows}, {} fields", fields.len()),
            Kind::Bin(b) => format!(
                "{} rows x {} bytes, cols [{}], heap @{} pcount {}",
                b.rows, b.naxis1,
                b.cols.iter().map(|c| match c.kind { ColKind::Fixed(t, r) => format!("{r}{}", t.ch()), ColKind::Vla(t, q) => format!("1{}{}", if q { 'Q' } else { 'P' }, t.ch()) }).collect::<Vec<_>>().join(","),
                b.theap, b.pcount
            ),
            Kind::Tile(b, t) => format!("{} zbitpix {} znaxis {:?} ztile {:?}, {} rows, {} cols", t.cmp, t.zbitpix, t.znaxis, t.ztile, b.rows, b.cols.len()),
        };
        format!("{} @{} data @{} +{} ({} cards): {k}", self.kind_name(), self.hdr_off, self.data_off, self.data.len(), self.cards.len())
    }
}

#[derive(Clone)]
pub struct FileSpec {
    pub hdus: Vec<HduSpec>,
    pub bytes: Rc<[u8]>,
    /// offset of the first byte of the primary header
    pub base: u64,
    pub final_padding: bool,
}
impl FileSpec {
    pub fn describe(&self) -> Vec<String> {
        let mut v = vec![format!("file: {} bytes, base {}, final padding {}", self.bytes.len(), self.base, self.final_padding)];
        for h in &self.hdus {
            v.push(format!("  {}", h.describe()));
        }
        v
    }
    pub fn sig(&self) -> u64 {
        let mut s = mix(self.bytes.len() as u64);
        for h in &self.hdus {
            s = mix(s ^ crate::tape::hash_str(&h.describe()));
        }
        s
    }
    pub fn with_bytes(&self, bytes: Vec<u8>) -> FileSpec {
        let mut f = self.clone();
        f.bytes = bytes.into();
        f
    }
}

// ---------------------------------------------------------------- cards
pub fn card_bytes(s: &str) -> [u8; 80] {
    let mut b = [b' '; 80];
    assert!(s.len() <= 80, "card too long: {s}");
    b[..s.len()].copy_from_slice(s.as_bytes());
    b
}

#[derive(Default)]
pub struct HdrBuilder {
    bytes: Vec<u8>,
    cards: Vec<Card>,
    keys: Vec<(String, Value)>,
    history: Vec<String>,
    /// keyword whose string goes on if the next card is a CONTINUE one
    open: Option<String>,
    /// how the mandatory cards are written (None: fixed format, no comment)
    style: Option<Rng>,
}
impl HdrBuilder {
    pub fn new(l: &mut Lane) -> Self {
        let style = if l.chance(1, 4) { Some(Rng::new(l.below(1 << 20))) } else { None };
        HdrBuilder { style, ..Default::default() }
    }
    pub fn put(&mut self, text: &str, card: Card) {
        self.put_raw(&card_bytes(text), card)
    }
    pub fn put_raw(&mut self, raw: &[u8; 80], card: Card) {
        self.bytes.extend_from_slice(raw);
        let mut open = None;
        match &card {
            Card::Value { name, value } | Card::Hierarch { name, value } => {
                let (name, value) = (name.clone(), value.clone());
                self.set(&name, value.clone());
                if matches!(&value, Value::String { value, .. } if value.ends_with('&')) {
                    open = Some(name);
                }
            }
            Card::Continuation { string, comment } => {
                if let Some(name) = self.open.take() {
                    let e = self.keys.iter_mut().find(|(n, _)| *n == name).unwrap();
                    let Value::String { value: acc, comment: com } = &mut e.1 else { unreachable!() };
                    acc.pop();
                    match string.as_deref() {
                        None | Some("") | Some(" ") => *acc = acc.trim_end().to_string(),
                        Some(t) => acc.push_str(t),
                    }
                    *com = match (com.take(), comment.clone()) {
                        (None, c) => c,
                        (Some(a), Some(c)) => Some(format!("{a}\n{c}")),
                        (a, None) => a,
                    };
                    if matches!(string, Some(t) if t.ends_with('&')) {
                        open = Some(name);
                    }
                }
            }
            Card::History(t) => self.history.push(t.clone()),
            _ => {}
        }
        self.open = open;
        self.cards.push(card);
    }
    pub fn set(&mut self, name: &str, v: Value) {
        if let Some(e) = self.keys.iter_mut().find(|(n, _)| n == name) {
            e.1 = v;
        } else {
            self.keys.push((name.to_string(), v));
        }
    }
    pub fn value(&mut self, name: &str, text: &str, value: Value) {
        self.put(text, Card::Value { name: name.to_string(), value });
    }
    /// the value field and comment in the style of this header
    fn styled(&mut self, name: &str, v: &str, string: bool) -> (String, Option<String>) {
        let Some(r) = &mut self.style else {
            return (if string { format!("{name:<8}= {v}") } else { format!("{name:<8}= {v:>20}") }, None);
        };
        let mut s = match r.next() % 4 {
            0 => format!("{name:<8}= {v}"),
            1 => format!("{name:<8}=   {v}"),
            2 if !string => format!("{name:<8}= {v:>40}"),
            _ if string => format!("{name:<8}= {v:<20}"),
            _ => format!("{name:<8}= {v:>20}"),
        };
        if s.len() > 70 {
            s = format!("{name:<8}= {v}");
        }
        let c = match r.next() % 6 {
            0 => None,
            1 => Some(" x".to_string()),
            2 => Some(" [deg/s] it's a comment = 3 / 4".to_string()),
            3 => Some("tight".to_string()),
            4 => Some(" 'quoted' & more &".to_string()),
            _ => Some(String::new()),
        };
        let c = match c {
            Some(t) if s.len() + 2 + t.len() <= 80 => {
                s.push_str(if r.next() % 3 == 0 { "/" } else { " /" });
                s.push_str(&t);
                Some(t)
            }
            _ => None,
        };
        (s, c)
    }
    pub fn int(&mut self, name: &str, n: i64) {
        let (s, comment) = self.styled(name, &n.to_string(), false);
        self.value(name, &s, Value::Integer { value: n, comment });
    }
    pub fn logical(&mut self, name: &str, v: bool) {
        let (s, comment) = self.styled(name, if v { "T" } else { "F" }, false);
        self.value(name, &s, Value::Logical { value: v, comment });
    }
    pub fn float(&mut self, name: &str, v: f64) {
        let (s, comment) = self.styled(name, &format!("{v:?}"), false);
        self.value(name, &s, Value::Float { value: v, comment });
    }
    pub fn string(&mut self, name: &str, s: &str) {
        let (t, comment) = self.styled(name, &format!("'{s:<8}'"), true);
        self.value(name, &t, Value::String { value: s.to_string(), comment });
    }
    pub fn xtension(&mut self, text: &str, x: XtensionType) {
        let (t, comment) = self.styled("XTENSION", &format!("'{text:<8}'"), true);
        self.put(&t, Card::Xtension { x, comment });
        self.set("XTENSION", Value::String { value: x.to_string(), comment: None });
    }
    pub fn ncards(&self) -> usize {
        self.cards.len()
    }
    pub fn finish(mut self) -> (Vec<u8>, Vec<Card>, Vec<(String, Value)>, Vec<String>, u64) {
        self.put("END", Card::End);
        let end = self.bytes.len() as u64;
        let n = pad_up(end) as usize;
        self.bytes.resize(n, b' ');
        (self.bytes, self.cards, self.keys, self.history, end)
    }
}

const TEXT: &[u8] = b"abcXYZ 019.,:;-_+*#&()[]{}<>=!?@$%^~|\"\\`";
fn text(l: &mut Lane, max: usize) -> String {
    let n = l.us(max + 1);
    let seed = l.below(1 << 20);
    let mut r = Rng::new(seed);
    (0..n).map(|_| TEXT[(r.next() % TEXT.len() as u64) as usize] as char).collect()
}
fn comment(l: &mut Lane, room: usize) -> (String, Option<String>) {
    // `room` bytes left on the card
    if room < 4 {
        return (String::new(), None);
    }
    match l.weighted(&[3, 3, 1, 1]) {
        0 => (String::new(), None),
        1 => {
            let mut t = text(l, (room - 3).min(40));
            if l.chance(1, 4) {
                t = format!("a/b {t}");
                t.truncate(room - 3);
            }
            let s = format!(" /{t}");
            let c = t.trim_end().to_string();
            (s, Some(c))
        }
        2 => {
            let mut t = format!(" it's {}", text(l, 20));
            t.truncate(room - 3);
            (format!(" /{t}"), Some(t.trim_end().to_string()))
        }
        _ => (" /".to_string(), Some(String::new())),
    }
}
const KEYSTEMS: [&str; 36] = ["QKEY", "W", "OBS-MODE", "EXPT_ME", "Q1", "AIRM", "K9", "GAIN", "RA-OBJ", "QX_Y-Z", "DATEQ", "U", "FILTER", "EQN",
    // close to keywords that mean something else
    "ENDTIME", "ENDX", "E", "COMMENTS", "COMMENT2", "HISTORY1", "HIST", "CONTINU", "CONT", "XTENSIO", "SIMPLE2", "BITPIXX", "NAXISX", "PCOUNTS", "HIERAR", "THEAPS", "TFORMX", "DATE-OBS", "1ABC", "-X", "_Y", "KEYWORD8",
];
fn keyname(l: &mut Lane) -> String {
    let s = *l.pick(&KEYSTEMS);
    if s.len() <= 6 && l.chance(1, 2) {
        format!("{s}{}", l.below(90))
    } else {
        s.to_string()
    }
}
/// a string value: (escaped text without quotes, expected value)
fn strval(l: &mut Lane, room: usize) -> (String, String) {
    match l.weighted(&[4, 1, 1, 2, 1]) {
        1 => (String::new(), String::new()),
        2 => (" ".repeat(l.range(1, 8.min(room as u64)) as usize), " ".to_string()),
        k => {
            let raw = match k {
                3 => {
                    let a = text(l, 8);
                    let b = text(l, 8);
                    let q = *l.pick(&["'", "''", " ' ", "/", "' /"]);
                    format!("{a}{q}{b}")
                }
                4 => format!("{}'", text(l, 12)),
                _ => text(l, room.min(40)),
            };
            // avoid accidental continuation marks and trim what would not fit
            let mut esc = String::new();
            let mut val = String::new();
            for ch in raw.chars() {
                let add = if ch == '\'' { 2 } else { 1 };
                if esc.len() + add > room {
                    break;
                }
                if ch == '\'' {
                    esc.push_str("''");
                } else {
                    esc.push(ch);
                }
                val.push(ch);
            }
            let t = val.trim_end().to_string();
            if t.ends_with('&') {
                return ("plain".into(), "plain".into());
            }
            let v = if val.is_empty() { String::new() } else if t.is_empty() { " ".into() } else { t };
            (esc, v)
        }
    }
}
fn assemble(name: &str, val: &str, l: &mut Lane) -> (String, Option<String>) {
    let mut s = format!("{name:<8}= ");
    if l.chance(1, 3) {
        s.push_str(val); // free format
    } else {
        s.push_str(&format!("{val:>20}"));
    }
    let room = 80 - s.len();
    let (t, c) = comment(l, room);
    s.push_str(&t);
    (s, c)
}

/// an integer or a float: text and value
fn number(l: &mut Lane) -> (String, Value) {
    if l.chance(1, 2) {
        let v: i64 = match l.below(7) {
            0 => l.below(100) as i64,
            1 => -(l.below(100000) as i64),
            2 => i64::MAX,
            3 => i64::MIN,
            4 => l.raw_u64() as i64,
            5 => *l.pick(&[255i64, 256, 65535, 65536, 4294967295, 4294967296, -2147483649]),
            _ => 0,
        };
        let t = match l.below(5) {
            0 | 1 => format!("{v}"),
            2 if v >= 0 => format!("+{v}"),
            3 if v == 0 => "-0".to_string(),
            _ => if v >= 0 { format!("00{v}") } else { format!("{v}") },
        };
        return (t, Value::Integer { value: v, comment: None });
    }
    let m = l.below(2_000_000) as i64 - 1_000_000;
    let e = l.below(40) as i64 - 20;
    let (t, v): (String, f64) = match l.below(8) {
        0 => (format!("{:.4}", m as f64 / 1000.0), format!("{:.4}", m as f64 / 1000.0).parse().unwrap()),
        1 => (format!("{m}.E{e}"), format!("{m}.E{e}").parse().unwrap()),
        2 => (format!("{m}.5D{e}"), format!("{m}.5E{e}").parse().unwrap()),
        3 => (format!("{m}D+{:02}", e.abs()), format!("{m}E+{:02}", e.abs()).parse().unwrap()),
        4 => (format!(".{}", m.abs()), format!(".{}", m.abs()).parse().unwrap()),
        5 => {
            let (t, v) = *l.pick(&[("1.7976931348623157E308", f64::MAX), ("4.9E-324", 5e-324), ("-0.0", -0.0), ("-.5", -0.5), ("+7.", 7.0), ("0.1000000000000000055511151231257827", 0.1)]);
            (t.to_string(), v)
        }
        6 => (format!("{m}E{}", e.abs()), format!("{m}E{}", e.abs()).parse().unwrap()),
        _ => (format!("{}0000000000000000", (m.abs() + 1) * 10), format!("{}0000000000000000", (m.abs() + 1) * 10).parse().unwrap()),
    };
    // an integer too big for 64 bits is reported as a float; smaller ones stay integers
    match t.parse::<i64>() {
        Ok(i) => (t, Value::Integer { value: i, comment: None }),
        Err(_) => (t, Value::Float { value: v, comment: None }),
    }
}
fn with_comment(v: Value, c: Option<String>) -> Value {
    match v {
        Value::Integer { value, .. } => Value::Integer { value, comment: c },
        Value::Float { value, .. } => Value::Float { value, comment: c },
        Value::Logical { value, .. } => Value::Logical { value, comment: c },
        Value::String { value, .. } => Value::String { value, comment: c },
        v => v,
    }
}
/// unescape without trimming
fn unescape(esc: &str) -> String {
    let mut raw = String::new();
    let mut q = false;
    for ch in esc.chars() {
        if ch == '\'' {
            if q {
                raw.push('\'');
            }
            q = !q;
        } else {
            raw.push(ch);
        }
    }
    raw
}
/// a card whose text may hold bytes outside of the printable range
fn lossy(b: &[u8]) -> String {
    b.iter().map(|&x| if (0x20..0x7f).contains(&x) { x as char } else { '\u{FFFD}' }).collect()
}
/// put a few bytes that FITS does not allow in the middle of a text
fn dirty(l: &mut Lane, t: &str) -> Vec<u8> {
    let mut v = t.as_bytes().to_vec();
    for _ in 0..l.range(1, 3) {
        if v.len() < 3 {
            break;
        }
        let k = 1 + l.us(v.len() - 2);
        // never two in a row: how a run of them is replaced is not specified
        if v[k - 1].is_ascii_graphic() && v[k + 1].is_ascii_graphic() && v[k].is_ascii_graphic() && v[k] != b'\'' && v[k - 1] != b'\'' && v[k + 1] != b'\'' {
            v[k] = *l.pick(&[0xe9u8, b'\t', 0x80, 0xff, 0x7f, 1, b'\n', 0xc3]);
        }
    }
    v
}
fn raw80(b: &[u8]) -> [u8; 80] {
    let mut o = [b' '; 80];
    o[..b.len()].copy_from_slice(b);
    o
}

pub fn rand_card(l: &mut Lane, b: &mut HdrBuilder) {
    match l.weighted(&[4, 3, 3, 2, 2, 2, 1, 2, 3, 2, 1, 1, 1, 2, 1, 2, 1]) {
        0 | 1 => {
            let n = keyname(l);
            let (t, v) = number(l);
            let (s, c) = assemble(&n, &t, l);
            b.value(&n, &s, with_comment(v, c));
        }
        2 => {
            let n = keyname(l);
            let room = if l.chance(1, 8) { 68 } else { 60 };
            let (esc, v) = strval(l, room);
            let padded = if l.chance(1, 2) && !esc.is_empty() { format!("{esc:<8}") } else { esc };
            let mut s = format!("{n:<8}= {}'{padded}'", if padded.len() < 60 && l.chance(1, 8) { "  " } else { "" });
            let room = 80 - s.len();
            let (t, c) = comment(l, room);
            s.push_str(&t);
            b.value(&n, &s, Value::String { value: v, comment: c });
        }
        3 => {
            let n = keyname(l);
            let v = l.chance(1, 2);
            let (s, c) = assemble(&n, if v { "T" } else { "F" }, l);
            b.value(&n, &s, Value::Logical { value: v, comment: c });
        }
        4 => {
            let t = text(l, 72);
            b.put(&format!("COMMENT {t}"), Card::Comment(t.trim_end().to_string()));
        }
        5 => {
            let t = text(l, 72);
            b.put(&format!("HISTORY {t}"), Card::History(t.trim_end().to_string()));
        }
        6 => {
            let n = keyname(l);
            let s = if l.chance(1, 2) { format!("{n:<8}= ") } else { format!("{n:<8}=            / no value") };
            b.value(&n, &s, Value::Undefined);
        }
        7 => {
            let t = text(l, 60);
            let t = t.trim_end();
            if t.is_empty() {
                b.put("", Card::Space);
            } else {
                b.put(&format!("        {t}"), Card::Comment(t.to_string()));
            }
        }
        8 => {
            // long string; without its last part sometimes
            let n = keyname(l);
            let parts = if l.chance(1, 60) { l.range(5, 120) } else { l.range(2, 4) };
            let dangling = l.chance(1, 6);
            let hier = l.chance(1, 5);
            let key = if hier { format!("ESO.{n}") } else { n.clone() };
            for i in 0..parts {
                let last = i + 1 == parts;
                if last && dangling {
                    break;
                }
                let (mut esc, mut v) = strval(l, 45);
                if v == " " && l.chance(1, 2) {
                    esc = String::new();
                    v = String::new();
                }
                // an & that belongs to the string
                if !last && l.chance(1, 10) {
                    esc.push('&');
                }
                let body = if last { esc.clone() } else { format!("{esc}&") };
                let head = if i > 0 {
                    format!("CONTINUE  '{body}'")
                } else if hier {
                    format!("HIERARCH ESO {n} = '{body}'")
                } else {
                    format!("{n:<8}= '{body}'")
                };
                let room = 80 - head.len();
                let (t, c) = comment(l, room);
                // blanks before the & are significant
                let seen = if last { v } else { format!("{}&", unescape(&esc)) };
                let txt = format!("{head}{t}");
                if i > 0 {
                    b.put(&txt, Card::Continuation { string: Some(seen), comment: c });
                } else {
                    let value = Value::String { value: seen, comment: c };
                    if hier {
                        b.put(&txt, Card::Hierarch { name: key.clone(), value });
                    } else {
                        b.put(&txt, Card::Value { name: key.clone(), value });
                    }
                }
            }
        }
        9 => {
            // HIERARCH
            let n = keyname(l);
            let levels = *l.pick(&["ESO", "ESO TEL", "ESO DET CHIP1", "ESO  INS", "A B C D"]);
            let eq = *l.pick(&[" = ", "= ", " =", "="]);
            let (t, v) = match l.below(4) {
                0 => {
                    let v = l.chance(1, 2);
                    (if v { "T" } else { "F" }.to_string(), Value::Logical { value: v, comment: None })
                }
                1 => {
                    let (esc, v) = strval(l, 24);
                    (format!("'{esc}'"), Value::String { value: v, comment: None })
                }
                _ => number(l),
            };
            let mut s = format!("HIERARCH {levels} {n}{eq}{t}");
            if s.len() > 80 {
                return;
            }
            let room = 80 - s.len();
            let (t, c) = comment(l, room);
            s.push_str(&t);
            let name = format!("{}.{n}", levels.split_whitespace().collect::<Vec<_>>().join("."));
            b.put(&s, Card::Hierarch { name, value: with_comment(v, c) });
        }
        10 => {
            let n = keyname(l);
            let s = format!("{n:<8} {}", text(l, 60));
            let s = String::from_utf8(card_bytes(&s).to_vec()).unwrap();
            if s.as_bytes()[8] == b'=' {
                return;
            }
            b.put(&s, Card::Undefined(s.clone()));
        }
        11 => {
            // cards that cannot be parsed
            let n = keyname(l);
            let s = match l.below(6) {
                0 => format!("{n:<8}= (1.0, 2.0)"),
                1 => format!("{n:<8}= 'no end quote"),
                2 => format!("HIERARCH ESO {n} 3"),
                3 => "CONTINUE  'no end quote &".to_string(),
                4 => format!("HIERARCH ESO {n} = 'no end"),
                _ => "HIERARCH = 5".to_string(),
            };
            let full = String::from_utf8(card_bytes(&s).to_vec()).unwrap();
            b.put(&s, Card::Undefined(full));
        }
        12 => {
            let n = keyname(l);
            if l.chance(1, 3) {
                // starts like a number
                let t = *l.pick(&["12abc", "2020-01-01", "1.2.3", "-", "+", "5DD3", "0x1F", "1D2D3"]);
                let s = format!("{n:<8}= {t:>20}");
                b.value(&n, &s, Value::Invalid(t.to_string()));
                return;
            }
            let s = format!("{n:<8}= bogus{}", l.below(100));
            let full = String::from_utf8(card_bytes(&s)[10..].to_vec()).unwrap();
            b.value(&n, &s, Value::Invalid(full));
        }
        13 => {
            // a CONTINUE card wherever we are: it continues the card before it or is mere commentary
            let (mut esc, mut v) = strval(l, 45);
            if v == " " && l.chance(1, 2) {
                esc = String::new();
                v = String::new();
            }
            let more = l.chance(1, 4);
            let seen = if more { format!("{}&", unescape(&esc)) } else { v };
            let head = format!("CONTINUE  '{esc}{}'", if more { "&" } else { "" });
            let room = 80 - head.len();
            let (t, c) = comment(l, room);
            b.put(&format!("{head}{t}"), Card::Continuation { string: Some(seen), comment: c });
        }
        14 => {
            // a string that asks for more, whatever comes next
            let n = keyname(l);
            let (mut esc, v) = strval(l, 30);
            if v == " " && l.chance(1, 2) {
                return;
            }
            if l.chance(1, 6) {
                esc.push('&');
            }
            b.value(&n, &format!("{n:<8}= '{esc}&'"), Value::String { value: format!("{}&", unescape(&esc)), comment: None });
        }
        15 => {
            // bytes that FITS does not allow
            let t = text(l, 40);
            let t = dirty(l, t.trim());
            if t.is_empty() {
                return;
            }
            let shown = lossy(&t);
            match l.below(7) {
                k @ 4..=6 => {
                    // in a string that a comment follows, in all the places where strings are
                    let t: Vec<u8> = t.into_iter().take(24).collect();
                    let shown = lossy(&t);
                    let n = keyname(l);
                    let mut r = match k {
                        4 => format!("{n:<8}= 'a"),
                        5 => format!("HIERARCH ESO {n} = 'a"),
                        _ => "CONTINUE  'a".to_string(),
                    }
                    .into_bytes();
                    r.extend(t.iter().flat_map(|&c| if c == b'\'' { vec![c, c] } else { vec![c] }));
                    r.extend(b"z'");
                    let room = 80 - r.len();
                    let (ct, c) = comment(l, room);
                    let (ct, c) = match c {
                        Some(_) if l.chance(1, 3) => {
                            let d = dirty(l, &ct);
                            let at = ct.find('/').unwrap();
                            // the slash itself has to stay
                            if d[at] == b'/' && d[..at].iter().all(|&x| x == b' ') {
                                let shown = lossy(&d[at + 1..]).trim_end().to_string();
                                (d, Some(shown))
                            } else {
                                (ct.into_bytes(), c)
                            }
                        }
                        c => (ct.into_bytes(), c),
                    };
                    r.extend(ct);
                    let value = Value::String { value: format!("a{shown}z"), comment: c.clone() };
                    let card = match k {
                        4 => Card::Value { name: n, value },
                        5 => Card::Hierarch { name: format!("ESO.{n}"), value },
                        _ => Card::Continuation { string: Some(format!("a{shown}z")), comment: c },
                    };
                    b.put_raw(&raw80(&r), card);
                }
                0 => {
                    let mut r = b"COMMENT ".to_vec();
                    r.extend(&t);
                    b.put_raw(&raw80(&r), Card::Comment(shown));
                }
                1 => {
                    let mut r = b"HISTORY ".to_vec();
                    r.extend(&t);
                    b.put_raw(&raw80(&r), Card::History(shown));
                }
                2 => {
                    let n = keyname(l);
                    let mut r = format!("{n:<8}= 'a").into_bytes();
                    let esc: Vec<u8> = t.iter().flat_map(|&c| if c == b'\'' { vec![c, c] } else { vec![c] }).collect();
                    r.extend(&esc);
                    r.extend(b"z'");
                    b.put_raw(&raw80(&r), Card::Value { name: n, value: Value::String { value: format!("a{shown}z"), comment: None } });
                }
                _ => {
                    let n = keyname(l);
                    let mut r = format!("{n:<8}= {:>20} /", 7).into_bytes();
                    r.extend(&t);
                    b.put_raw(&raw80(&r), Card::Value { name: n, value: Value::Integer { value: 7, comment: Some(shown) } });
                }
            }
        }
        _ => {
            // a unit
            let n = keyname(l);
            let (t, v) = number(l);
            let u = *l.pick(&[" [deg] x", " [m/s]", "[Jy] tight", " [", " []", " a [b]"]);
            let s = format!("{n:<8}= {t:>20} /{u}");
            b.value(&n, &s, with_comment(v, Some(u.to_string())));
        }
    }
}

fn filler(l: &mut Lane, b: &mut HdrBuilder, rich: bool) {
    // extra cards, biased so that headers end exactly on, just before and just after a block
    let n = b.ncards();
    let extra = match l.weighted(&[4, 4, 2, 1]) {
        // the longest headers have thousands of cards
        0 if l.chance(1, 1500) => *l.pick(&[1000usize, 300, 3000, 9000]),
        0 => 0,
        1 => l.range(1, if rich { 20 } else { 6 }) as usize,
        2 => {
            // number of cards including END ends at 36k-1, 36k, 36k+1
            let total = 36 * l.range(1, 2) as usize + 36 * (n / 36);
            let total = total - 1 + l.us(3);
            total.saturating_sub(n + 1)
        }
        _ => l.range(1, if rich { 90 } else { 40 }) as usize,
    };
    let target = n + extra;
    while b.ncards() < target {
        if rich || l.chance(1, 3) {
            rand_card(l, b);
        } else {
            let k = b.ncards();
            let name = format!("QF{k}");
            b.int(&name, k as i64);
        }
    }
}

// ---------------------------------------------------------------- data
pub fn fill(seed: u64, mode: u64, n: usize) -> Vec<u8> {
    let mut r = Rng::new(seed);
    match mode {
        0 => (0..n).map(|i| (i % 251) as u8).collect(),
        1 => {
            let mut v = vec![0u8; n];
            for c in v.chunks_mut(8) {
                let x = r.next().to_le_bytes();
                c.copy_from_slice(&x[..c.len()]);
            }
            v
        }
        2 => (0..n).map(|_| match r.next() % 6 { 0 => 0xff, 1 => 0x7f, 2 => 0x80, 3 => 0, 4 => b' ', _ => r.next() as u8 }).collect(),
        _ => {
            // looks like header text, to catch a reader that lands in the wrong place
            let pat = b"XTENSION= 'IMAGE   '           / decoy                                          BITPIX  =                    8                                                  NAXIS   =                    0                                                  END                                                                             ";
            (0..n).map(|i| pat[i % pat.len()]).collect()
        }
    }
}

#[derive(Clone, Copy)]
pub struct GenCfg {
    pub max_ext: u64,
    /// weights: image, ascii, bintable, tile
    pub w: [u64; 4],
    pub rich_headers: bool,
    pub big: bool,
    pub prefix: bool,
    pub allow_no_final_padding: bool,
    /// the primary must carry an image of this shape class
    pub primary_image: bool,
    /// 2-d / 3-plane images only (image decoder)
    pub viewable: bool,
    pub bscale: bool,
    /// one data unit in so many is of an exceptional size (0: none)
    pub odd: u64,
}
impl Default for GenCfg {
    fn default() -> Self {
        GenCfg { max_ext: 5, w: [3, 1, 2, 1], rich_headers: false, big: false, prefix: false, allow_no_final_padding: true, primary_image: false, viewable: false, bscale: false, odd: 200 }
    }
}

pub fn bytes_per(bitpix: i32) -> u64 {
    bitpix.unsigned_abs() as u64 / 8
}

fn image_dims(l: &mut Lane, bp: u64, cfg: &GenCfg) -> Vec<u64> {
    if cfg.viewable {
        let mut w = l.range(1, 12);
        let mut h = l.range(1, 9);
        if cfg.odd > 0 && l.chance(1, cfg.odd) {
            w = *l.pick(&[255, 256, 257, 1000, 65537]);
            h = l.range(1, 3);
            if l.chance(1, 2) {
                std::mem::swap(&mut w, &mut h);
            }
        }
        return match l.weighted(&[5, 1, 3]) {
            0 => vec![w, h],
            1 => vec![w, h, 1],
            _ => vec![w, h, 3],
        };
    }
    if cfg.odd > 0 && l.chance(1, cfg.odd) {
        let n = limit_size(l) as u64;
        return match l.below(5) {
            0 => vec![n],
            1 => vec![1, n],
            2 => vec![n, 1, 1],
            3 => vec![256, n / 256 + 1],
            _ => {
                // up to the 999 axes that there can be
                let d = *l.pick(&[20usize, 10, 99, 100, 256, 999]);
                let mut v = vec![1; d];
                for _ in 0..l.range(0, 4) {
                    v[l.us(d)] = l.range(1, 3);
                }
                v
            }
        };
    }
    match l.weighted(&[4, 3, 2, 2, 1, 1]) {
        0 => {
            let n = l.range(1, 3);
            (0..n).map(|_| l.range(1, 9)).collect()
        }
        1 => vec![],
        2 => {
            // data size hits a block multiple, or one element around it
            let blocks = l.range(1, 3);
            let n = blocks * BLOCK / bp;
            let n = n + l.below(3) - 1;
            if n % 2 == 0 && l.chance(1, 2) { vec![n / 2, 2] } else { vec![n] }
        }
        3 => {
            let n = l.range(1, 5);
            let mut d: Vec<u64> = (0..n).map(|_| l.range(1, 4)).collect();
            if l.chance(1, 2) {
                let k = l.us(d.len());
                d[k] = 0;
            }
            d
        }
        4 => {
            let n = l.range(4, 12);
            (0..n).map(|i| if i < 4 { l.range(1, 3) } else { 1 }).collect()
        }
        _ => {
            let cap = if cfg.big { 60_000 } else { 6_000 };
            vec![l.range(1, cap / bp)]
        }
    }
}

pub const BITPIX: [i32; 6] = [8, 16, 32, -32, 64, -64];
const COLNAMES: [&str; 10] = ["RA", "DEC", "flux", "RA_ERR", "ra", "Name", "counts", "PSF_X", "q", "TIME"];

fn col_name(i: usize) -> &'static str {
    use std::sync::OnceLock;
    static S: OnceLock<Vec<&'static str>> = OnceLock::new();
    if i < COLNAMES.len() {
        COLNAMES[i]
    } else {
        S.get_or_init(|| (0..200).map(|i| &*Box::leak(format!("COL_{i}").into_boxed_str())).collect())[i]
    }
}

/// sizes around the limits of small integers
fn limit_size(l: &mut Lane) -> usize {
    let n = match l.weighted(&[3, 2, 2, 1]) {
        0 => l.range(254, 258),
        1 => l.range(300, 1500),
        2 => l.range(32766, 32770),
        _ => l.range(65533, 70000),
    };
    n as usize
}

fn gen_bin(l: &mut Lane, cfg: &GenCfg) -> (BinSpec, Vec<u8>) {
    // now and then: 1 many columns, 2 many rows, 3 long cells, 4 long arrays, 5 far heap
    let odd = if cfg.odd > 0 && l.chance(1, cfg.odd) { l.range(1, 5) } else { 0 };
    let nf = match odd {
        0 => if l.chance(1, 24) { 0 } else { l.range(1, 6) as usize },
        1 => *l.pick(&[99, 9, 10, 11, 100, 101, 130, 255, 256, 257, 999]),
        2 => l.range(1, 2) as usize,
        _ => l.range(1, 4) as usize,
    };
    let mut cols: Vec<Col> = vec![];
    let mut off = 0;
    let zero_rep = l.chance(1, 5);
    let vla_w = if odd >= 4 { 3 } else { *l.pick(&[0, 1, 3]) };
    let long = l.us(nf.max(1));
    for i in 0..nf {
        let mut ty = *l.pick(&TYS);
        let kind = if odd >= 4 && i == long || l.weighted(&[3, vla_w]) == 1 {
            ColKind::Vla(ty, l.chance(1, 3))
        } else if odd == 3 && i == long {
            let rep = limit_size(l);
            if rep > 2000 && ty.size() > 4 {
                ty = *l.pick(&[Ty::B, Ty::X, Ty::A, Ty::L, Ty::I]);
            }
            ColKind::Fixed(ty, rep)
        } else {
            let rep = match l.weighted(&[4, 3, if zero_rep { 2 } else { 0 }, 1]) {
                0 => 1,
                1 => l.range(2, 9) as usize,
                2 => 0,
                _ => if odd == 2 { 1 } else { *l.pick(&[8, 16, 17, 24, 33, 64]) },
            };
            ColKind::Fixed(ty, rep)
        };
        let name = if i < 200 && l.chance(4, 5) { Some(col_name(i)) } else { None };
        let c = Col { kind, name, off };
        off += c.width();
        cols.push(c);
    }
    // now and then two columns bear the same name
    if nf >= 2 && l.chance(1, 20) {
        let k = l.range(1, nf as u64 - 1) as usize;
        cols[k].name = cols[0].name;
    }
    let naxis1 = off;
    let rows = match odd {
        0 => match l.weighted(&[5, 1, 2]) {
            0 => l.range(1, 6) as usize,
            1 => 0,
            _ => l.range(7, 40) as usize,
        },
        2 => limit_size(l).min(if naxis1 > 8 { 1500 } else { 70000 }),
        _ => l.range(1, 3) as usize,
    };
    let mut main = fill(l.below(1 << 30), l.below(3), naxis1 * rows);
    let has_vla = cols.iter().any(|c| matches!(c.kind, ColKind::Vla(..)));
    // logical columns hold T, F or NUL only
    let mut r = Rng::new(l.below(1 << 30));
    for row in 0..rows {
        for c in &cols {
            if let ColKind::Fixed(Ty::L, n) = c.kind {
                for k in 0..n {
                    main[row * naxis1 + c.off + k] = [b'T', b'F', 0][(r.next() % 3) as usize];
                }
            }
        }
    }
    let mut heap: Vec<u8> = vec![];
    let mut gap = 0usize;
    if has_vla {
        if l.chance(1, 3) {
            gap = l.range(1, 50) as usize;
        }
        if odd == 5 && l.chance(2, 3) {
            gap = limit_size(l);
        } else if odd == 5 {
            heap.extend(fill(7, 1, limit_size(l)));
        } else if l.chance(1, 4) {
            heap.extend(fill(7, 1, l.range(1, 30) as usize)); // unused space first
        }
        let empties = l.chance(1, 2);
        let maxlen = if odd == 2 { 3 } else { *l.pick(&[4u64, 12, 3, 60]) };
        let mut long_arrays = if odd == 4 { 2 } else { 0 };
        let shared = l.chance(1, 6);
        // arrays are laid out in row order, column order or backwards
        let mut slots: Vec<(usize, usize)> = vec![];
        for row in 0..rows {
            for (ci, c) in cols.iter().enumerate() {
                if matches!(c.kind, ColKind::Vla(..)) {
                    slots.push((row, ci));
                }
            }
        }
        match l.below(3) {
            0 => {}
            1 => slots.reverse(),
            _ => {
                let mut r = Rng::new(l.below(1 << 20));
                for i in (1..slots.len()).rev() {
                    let j = (r.next() % (i as u64 + 1)) as usize;
                    slots.swap(i, j);
                }
            }
        }
        let mut r = Rng::new(l.below(1 << 30));
        for (row, ci) in slots {
            let ColKind::Vla(t, q) = cols[ci].kind else { unreachable!() };
            let mut n = if empties && r.next() % 3 == 0 { 0 } else { 1 + r.next() % maxlen } as usize;
            if long_arrays > 0 && r.next() % 2 == 0 {
                long_arrays -= 1;
                n = limit_size(l);
                if n > 2000 && t.size() > 4 {
                    n = 300 + n % 1000;
                }
            }
            if r.next() % 5 == 0 {
                heap.push(0xEE);
            }
            let mut o = heap.len();
            let nb = t.bytes_of(n);
            if n == 0 && r.next() % 3 == 0 {
                // where an empty array lies means nothing
                o = [0, 1 << 31, 123_456_789, 7][(r.next() % 4) as usize];
            } else if shared && t != Ty::L && heap.len() >= nb {
                // arrays may share space of the heap
                o = (r.next() % (heap.len() - nb + 1) as u64) as usize;
            } else {
                let mut d = fill(r.next(), 1 + r.next() % 2, nb);
                if t == Ty::L {
                    for b in d.iter_mut() {
                        *b = [b'T', b'F', 0][(*b % 3) as usize];
                    }
                }
                heap.extend(d);
            }
            let p = row * naxis1 + cols[ci].off;
            if q {
                main[p..p + 8].copy_from_slice(&(n as u64).to_be_bytes());
                main[p + 8..p + 16].copy_from_slice(&(o as u64).to_be_bytes());
            } else {
                main[p..p + 4].copy_from_slice(&(n as u32).to_be_bytes());
                main[p + 4..p + 8].copy_from_slice(&(o as u32).to_be_bytes());
            }
        }
        if l.chance(1, 3) {
            heap.extend(fill(9, 1, l.range(1, 40) as usize));
        }
    } else if l.chance(1, 6) {
        heap.extend(fill(11, 3, l.range(1, 200) as usize));
    }
    let theap = main.len() + gap;
    let mut data = main;
    data.extend(fill(13, 1, gap));
    data.extend(heap);
    let pcount = data.len() - naxis1 * rows;
    (BinSpec { cols, naxis1, rows, theap, pcount, has_vla }, data)
}

pub fn bin_header(l: &mut Lane, b: &mut HdrBuilder, s: &BinSpec, extra: &mut dyn FnMut(&mut Lane, &mut HdrBuilder)) {
    b.int("BITPIX", 8);
    b.int("NAXIS", 2);
    b.int("NAXIS1", s.naxis1 as i64);
    b.int("NAXIS2", s.rows as i64);
    b.int("PCOUNT", s.pcount as i64);
    b.int("GCOUNT", 1);
    b.int("TFIELDS", s.cols.len() as i64);
    if s.theap != s.naxis1 * s.rows || l.chance(1, 4) {
        b.int("THEAP", s.theap as i64);
    }
    extra(l, b);
    let mut forms: Vec<(String, String)> = vec![];
    for (i, c) in s.cols.iter().enumerate() {
        let f = match c.kind {
            ColKind::Fixed(t, 1) if l.chance(1, 2) => format!("{}", t.ch()),
            // strings of a fixed width in the field: a display convention only
            ColKind::Fixed(Ty::A, r) if l.chance(1, 6) => format!("{r}A{}", 1 + r % 7),
            ColKind::Fixed(t, r) if l.chance(1, 12) => format!("0{r}{}", t.ch()),
            ColKind::Fixed(t, r) => format!("{r}{}", t.ch()),
            ColKind::Vla(t, q) => {
                let p = if q { 'Q' } else { 'P' };
                match l.below(3) {
                    0 => format!("1{p}{}(99)", t.ch()),
                    1 => format!("{p}{}", t.ch()),
                    _ => format!("1{p}{}({})", t.ch(), l.pick(&["0", "1", "1000000"])),
                }
            }
        };
        forms.push((format!("TFORM{}", i + 1), f));
        if let Some(n) = c.name {
            forms.push((format!("TTYPE{}", i + 1), n.to_string()));
        }
        if i < 12 && l.chance(1, 12) {
            // says how to interpret the values; the reader gives them as stored
            forms.push((format!("{}{}", l.pick(&["TUNIT", "TDISP", "TDIM", "TCOMM"]), i + 1), "(1,2)".into()));
        }
    }
    // in any order
    match l.below(3) {
        0 => {}
        1 => forms.reverse(),
        _ => forms.sort(),
    }
    for (k, v) in forms {
        b.string(&k, &v);
    }
}

pub fn gzip(d: &[u8]) -> Vec<u8> {
    let mut e = GzEncoder::new(Vec::new(), Compression::new(6));
    e.write_all(d).unwrap();
    e.finish().unwrap()
}

/// Reference pseudo-random sequence of the tiled-image convention.
pub fn rand_seq() -> &'static [f64] {
    use std::sync::OnceLock;
    static S: OnceLock<Vec<f64>> = OnceLock::new();
    S.get_or_init(|| {
        let (a, m) = (16807u64, 2147483647u64);
        let mut s = 1u64;
        (0..10000)
            .map(|_| {
                s = a * s % m;
                (s as f64 / m as f64) as f32 as f64
            })
            .collect()
    })
}

fn gen_tile(l: &mut Lane, cfg: &GenCfg) -> (BinSpec, TileSpec, Vec<u8>, Vec<(String, i64)>, Vec<(String, String)>) {
    let cmp = *l.pick(&["GZIP_1", "RICE_1", "GZIP_2", "RICE_ONE"]);
    let rice_ = cmp.starts_with("RICE");
    let zbitpix = *l.pick(&[32, 16, 8, -32, -64]);
    // now and then: 1 many pixels in a tile, 2 many tiles, 3 far heap
    let odd = if cfg.odd > 0 && l.chance(1, cfg.odd) { l.range(1, 3) } else { 0 };
    let far = if odd == 3 { limit_size(l) * l.range(1, 2) as usize } else { 0 };
    let odd = odd % 3;
    let znaxis: Vec<usize> = if odd == 1 {
        match l.below(3) {
            0 => vec![limit_size(l), 1],
            1 => vec![*l.pick(&[100usize, 127, 97]), l.range(95, 120) as usize],
            // the whole of a large image
            _ if cfg.odd < 100 && l.chance(1, 10) => vec![1024, l.range(100, 1100) as usize],
            _ => vec![l.range(9000, 22000) as usize, l.range(1, 2) as usize],
        }
    } else if odd == 0 && cfg.odd > 0 && !cfg.viewable && l.chance(1, cfg.odd) {
        let d = l.range(5, 12);
        (0..d).map(|_| l.below(3).max(1) as usize).collect()
    } else if odd == 2 {
        let many = if cfg.odd < 100 && l.chance(1, 8) { limit_size(l) } else { limit_size(l).min(1500) };
        vec![if many > 1500 { 1 } else { l.range(1, 3) as usize }, many]
    } else if cfg.viewable {
        let mut v = vec![l.range(1, 12) as usize, l.range(1, 9) as usize];
        match l.weighted(&[5, 1, 3]) {
            0 => {}
            1 => v.push(1),
            _ => v.push(3),
        }
        v
    } else {
        let d = l.weighted(&[1, 5, 2, 1]) + 1;
        (0..d).map(|i| if i < 2 { l.range(1, 14) } else { l.range(1, 3) } as usize).collect()
    };
    // default tiling: row by row
    let explicit = odd > 0 || l.chance(2, 3);
    let ztile: Vec<usize> = znaxis
        .iter()
        .enumerate()
        .map(|(i, &n)| {
            if odd > 0 {
                if odd == 1 || i == 0 { n } else { 1 + l.us(2) }
            } else if explicit {
                match l.below(4) {
                    0 => n,
                    1 => l.range(1, n as u64) as usize,
                    2 => 1 + n / 2,
                    _ => if i == 0 { n } else { 1 },
                }
            } else if i == 0 { n } else { 1 }
        })
        .collect();
    let ntiles: Vec<usize> = znaxis.iter().zip(&ztile).map(|(n, t)| n.div_ceil(*t)).collect();
    let rows: usize = ntiles.iter().product();
    let is_float = zbitpix < 0;
    let blocksize = if rice_ { *l.pick(&[32u8, 16, 8, 64, 1, 128]) } else { 32 };
    // bytes of the integers that are compressed
    let native = match zbitpix {
        8 => 1,
        16 => 2,
        _ => 4,
    };
    // single bytes have no order to shuffle
    let bytepix: usize = if cmp == "GZIP_2" && native == 1 || l.chance(1, 2) { native } else { 4 };
    // integers that are small enough can be compressed as narrower ones
    let bytepix = if rice_ && l.chance(1, 8) { *l.pick(&[1, 2]) } else { bytepix };
    let narrow = |v: i32| match bytepix {
        1 => v & 0xff,
        2 => v as i16 as i32,
        _ => v,
    };
    let bs_explicit = rice_ && (blocksize != 32 || l.chance(1, 2));
    // quantization
    let dither = if is_float { l.weighted(&[3, 3, 2]) } else { 0 };
    let zd0 = l.range(1, 10000) as i64;
    let zd0 = if l.chance(1, 6) { 10000 - l.below(3) as i64 } else { zd0 };
    let zblank_mode = if is_float { l.weighted(&[3, 2, 2]) } else { 0 }; // none, keyword, column
    let zblank_ty = *l.pick(&[Ty::J, Ty::B, Ty::I, Ty::K]);
    let zblank = match zblank_ty {
        Ty::B if zblank_mode == 2 => *l.pick(&[0, 255, 7]),
        Ty::I if zblank_mode == 2 => *l.pick(&[-32768, -1, 0, 32767]),
        _ => *l.pick(&[-2147483648i64, -1, 32767, 0]) as i32,
    };
    let scale_double = l.chance(1, 2);
    // columns
    #[derive(Clone, Copy, PartialEq)]
    enum F { Data, Scale, Zero, Blank, Junk(Ty, usize), JunkVla }
    let mut fs = vec![F::Data];
    if is_float {
        fs.push(F::Scale);
        fs.push(F::Zero);
        if zblank_mode == 2 {
            fs.push(F::Blank);
        }
    }
    for _ in 0..l.weighted(&[4, 1, 1]) {
        let rep = match l.weighted(&[6, 2, 1]) {
            0 => l.range(0, 3) as usize,
            1 => l.range(4, 40) as usize,
            // rows longer than a small integer counts
            _ if cfg.odd > 0 && rows < 16 && l.chance(1, cfg.odd) => limit_size(l),
            _ => 8,
        };
        let f = if l.chance(1, 4) {
            F::JunkVla
        } else {
            // a few hundred kilobytes at most
            let ty = *l.pick(&TYS);
            let most = (1 << 19) / (rows.max(1) as usize * ty.size());
            F::Junk(ty, if rep > 3 { rep.min(most.max(3)) } else { rep })
        };
        fs.push(f);
    }
    if l.chance(1, 2) {
        let mut r = Rng::new(1 + l.below(1 << 20));
        for i in (1..fs.len()).rev() {
            fs.swap(i, (r.next() % (i as u64 + 1)) as usize);
        }
    }
    let q = l.chance(1, 4);
    let mut cols = vec![];
    let mut off = 0;
    let data_name = if !rice_ && l.chance(1, 6) { "GZIP_COMPRESSED_DATA" } else { "COMPRESSED_DATA" };
    for f in &fs {
        let (kind, name) = match *f {
            F::Data => (ColKind::Vla(Ty::B, q), Some(data_name)),
            F::Scale => (ColKind::Fixed(if scale_double { Ty::D } else { Ty::E }, 1), Some("ZSCALE")),
            F::Zero => (ColKind::Fixed(if scale_double { Ty::D } else { Ty::E }, 1), Some("ZZERO")),
            F::Blank => (ColKind::Fixed(zblank_ty, 1), Some("ZBLANK")),
            F::Junk(t, r) => (ColKind::Fixed(t, r), None),
            // the columns of tiles stored otherwise, all empty
            F::JunkVla if data_name == "COMPRESSED_DATA" => (ColKind::Vla(Ty::I, false), *l.pick(&[None, Some("GZIP_COMPRESSED_DATA"), Some("UNCOMPRESSED_DATA")])),
            F::JunkVla => (ColKind::Vla(Ty::I, false), None),
        };
        let c = Col { kind, name, off };
        off += c.width();
        cols.push(c);
    }
    let naxis1 = off;
    let mut main = fill(l.below(1 << 20), 1, naxis1 * rows);
    let mut heap: Vec<u8> = vec![];
    let mut r = Rng::new(l.below(1 << 40));
    let style = l.below(6);
    let mut ints = vec![];
    let mut floats = vec![];
    let mut tol = vec![];
    let mut tile_starts = vec![0];
    let mut image_index = vec![];
    let far_gap = far > 0 && l.chance(1, 3);
    let gap_prefix = if far > 0 && !far_gap { far } else { l.below(3) as usize * 5 };
    heap.extend(std::iter::repeat(0xAA).take(gap_prefix));
    let mut has_nan = false;
    let order_rev = l.chance(1, 3);
    let mut blobs: Vec<Vec<u8>> = vec![];
    let rs = rand_seq();
    for row in 0..rows {
        // position of the tile, first axis fastest
        let mut k = row;
        let pos: Vec<usize> = ntiles.iter().map(|n| { let p = k % n; k /= n; p }).collect();
        let sz: Vec<usize> = pos.iter().enumerate().map(|(i, p)| ztile[i].min(znaxis[i] - p * ztile[i])).collect();
        let npix: usize = sz.iter().product();
        let mut px: Vec<i32> = Vec::with_capacity(npix);
        // each tile can have its own blank
        let zblank = match (zblank_mode, r.next() % 3) {
            (2, 0) => 7 + (row % 100) as i32,
            _ => zblank,
        };
        let mut last = (r.next() % 200) as i32;
        for _ in 0..npix {
            let v = match style {
                0 => { last += (r.next() % 7) as i32 - 3; last }
                1 => 42,
                2 => (r.next() % 65536) as i32 - 32768,
                3 => if r.next() % 9 == 0 { (r.next() % 30000) as i32 } else { 5 },
                4 => if is_float { (r.next() % 20000) as i32 - 10000 } else { r.next() as i32 },
                _ => { last = last.wrapping_add((r.next() % 2000) as i32 - 1000); last }
            };
            let v = match zbitpix { 8 => v & 0xff, 16 => v as i16 as i32, _ => v };
            px.push(narrow(v));
        }
        if is_float {
            if zblank_mode > 0 && narrow(zblank) == zblank {
                for v in px.iter_mut() {
                    if r.next() % 11 == 0 {
                        *v = zblank;
                        has_nan = true;
                    }
                }
            }
            if dither == 2 && bytepix == 4 {
                for v in px.iter_mut() {
                    if r.next() % 9 == 0 {
                        *v = -2147483647;
                    }
                }
            }
        }
        // what the pixels mean
        let scale = [0.5f64, 1.0, 0.25, 2.0][(r.next() % 4) as usize];
        let zero = [0.0f64, 100.0, -3.0][(r.next() % 3) as usize];
        if is_float {
            let mut iseed = ((row as i64 + 1 + zd0 - 2) % 10000) as usize;
            let mut next = (rs[iseed] * 500.0) as usize;
            for &v in &px {
                let rnd = rs[next];
                if dither > 0 {
                    next += 1;
                    if next == 10000 {
                        iseed = (iseed + 1) % 10000;
                        next = (rs[iseed] * 500.0) as usize;
                    }
                }
                let f = if zblank_mode > 0 && v == zblank {
                    f64::NAN
                } else {
                    match dither {
                        0 => v as f64 * scale + zero,
                        2 if v == -2147483647 => 0.0,
                        _ => (v as f64 - rnd + 0.5) * scale + zero,
                    }
                };
                floats.push(f);
                tol.push(2e-6 * ((v as f64 * scale).abs() + zero.abs() + scale));
            }
        }
        // compressed stream
        let blob = if rice_ {
            rice::compress(&px, blocksize as usize, bytepix)
        } else {
            let w = bytepix;
            let mut raw = vec![0u8; w * npix];
            for (i, v) in px.iter().enumerate() {
                let b = &v.to_be_bytes()[4 - w..];
                for k in 0..w {
                    if cmp == "GZIP_2" {
                        raw[k * npix + i] = b[k];
                    } else {
                        raw[w * i + k] = b[k];
                    }
                }
            }
            gzip(&raw)
        };
        blobs.push(blob);
        // where each pixel lies in the image
        for i in 0..npix {
            let mut k = i;
            let mut idx = 0;
            let mut stride = 1;
            for d in 0..sz.len() {
                let p = pos[d] * ztile[d] + k % sz[d];
                k /= sz[d];
                idx += p * stride;
                stride *= znaxis[d];
            }
            image_index.push(idx);
        }
        ints.extend(px);
        tile_starts.push(ints.len());
        for (ci, f) in fs.iter().enumerate() {
            let p = row * naxis1 + cols[ci].off;
            match f {
                F::Scale | F::Zero => {
                    let v = if *f == F::Scale { scale } else { zero };
                    if scale_double {
                        main[p..p + 8].copy_from_slice(&v.to_be_bytes());
                    } else {
                        main[p..p + 4].copy_from_slice(&(v as f32).to_be_bytes());
                    }
                }
                F::Blank => {
                    let n = zblank_ty.size();
                    main[p..p + n].copy_from_slice(&(zblank as i64).to_be_bytes()[8 - n..]);
                }
                F::JunkVla => main[p..p + 8].copy_from_slice(&[0; 8]),
                _ => {}
            }
        }
    }
    let idxs: Vec<usize> = if order_rev { (0..rows).rev().collect() } else { (0..rows).collect() };
    let dcol = fs.iter().position(|f| *f == F::Data).unwrap();
    for row in idxs {
        let o = heap.len() as u64;
        let n = blobs[row].len() as u64;
        heap.extend(&blobs[row]);
        if r.next() % 4 == 0 {
            heap.push(0x55);
        }
        let p = row * naxis1 + cols[dcol].off;
        if q {
            main[p..p + 8].copy_from_slice(&n.to_be_bytes());
            main[p + 8..p + 16].copy_from_slice(&o.to_be_bytes());
        } else {
            main[p..p + 4].copy_from_slice(&(n as u32).to_be_bytes());
            main[p + 4..p + 8].copy_from_slice(&(o as u32).to_be_bytes());
        }
    }
    let gap = if far_gap {
        far
    } else if l.chance(1, 5) {
        l.range(1, 40) as usize
    } else {
        0
    };
    let theap = main.len() + gap;
    let mut data = main;
    data.extend(fill(3, 1, gap));
    data.extend(&heap);
    let pcount = data.len() - naxis1 * rows;
    let mut ikeys = vec![("ZBITPIX".to_string(), zbitpix as i64), ("ZNAXIS".to_string(), znaxis.len() as i64)];
    for (i, n) in znaxis.iter().enumerate() {
        ikeys.push((format!("ZNAXIS{}", i + 1), *n as i64));
    }
    if explicit {
        let spare = l.chance(1, 4);
        for (i, n) in ztile.iter().enumerate() {
            // what is the default anyway can be left out
            if spare && *n == (if i == 0 { znaxis[0] } else { 1 }) {
                continue;
            }
            ikeys.push((format!("ZTILE{}", i + 1), *n as i64));
        }
    }
    let mut skeys = vec![("ZCMPTYPE".to_string(), cmp.to_string())];
    if rice_ {
        let mut slots = [1u64, 2, 3];
        let a = l.us(3);
        slots.swap(0, a);
        let mut put = |slot: u64, name: &str, v: i64| {
            skeys.push((format!("ZNAME{slot}"), name.into()));
            ikeys.push((format!("ZVAL{slot}"), v));
        };
        let both = l.chance(1, 2);
        if bytepix != 4 || both {
            put(slots[1], "BYTEPIX", bytepix as i64);
        }
        if bs_explicit {
            put(slots[0], "BLOCKSIZE", blocksize as i64);
        }
        if l.chance(1, 8) {
            put(slots[2], *l.pick(&["NOISEBIT", "BYTEPI", "BLOCKSIZES"]), 1);
        }
    }
    if is_float {
        match dither {
            1 => skeys.push(("ZQUANTIZ".into(), "SUBTRACTIVE_DITHER_1".into())),
            2 => skeys.push(("ZQUANTIZ".into(), "SUBTRACTIVE_DITHER_2".into())),
            _ => {
                if l.chance(1, 2) {
                    skeys.push(("ZQUANTIZ".into(), "NO_DITHER".into()))
                }
            }
        }
        if dither > 0 {
            ikeys.push(("ZDITHER0".into(), zd0));
        }
        if zblank_mode == 1 {
            ikeys.push(("ZBLANK".into(), zblank as i64));
        }
    }
    let spec = BinSpec { cols, naxis1, rows, theap, pcount, has_vla: true };
    let t = TileSpec { cmp, zbitpix, znaxis, ztile, ints, floats, tol, tile_starts, image_index, bscale: None, has_nan };
    (spec, t, data, ikeys, skeys)
}

fn bscale_keys(l: &mut Lane, b: &mut HdrBuilder) -> Option<(f64, f64)> {
    match l.weighted(&[3, 1, 1, 1]) {
        0 => None,
        1 => {
            b.float("BZERO", 32768.0);
            Some((1.0, 32768.0))
        }
        2 => {
            b.float("BSCALE", 0.5);
            b.float("BZERO", 10.0);
            Some((0.5, 10.0))
        }
        _ => {
            b.float("BSCALE", 2.0);
            Some((2.0, 0.0))
        }
    }
}

pub fn gen_hdu(l: &mut Lane, primary: bool, cfg: &GenCfg, at: u64) -> HduSpec {
    let which = if primary { 0 } else { l.weighted(&cfg.w) };
    let mut b = HdrBuilder::new(l);
    let mut bscale = None;
    let (kind, data) = match which {
        0 => {
            let bitpix = *l.pick(&BITPIX);
            let bp = bytes_per(bitpix);
            let naxis = if primary && !cfg.primary_image && l.chance(1, 3) { vec![] } else { image_dims(l, bp, cfg) };
            let npix: u64 = if naxis.is_empty() { 0 } else { naxis.iter().product() };
            if primary {
                b.logical("SIMPLE", true);
            } else {
                b.xtension(*l.pick(&["IMAGE", "IMAGE", "IMAGE", "IUEIMAGE"]), XtensionType::Image);
            }
            b.int("BITPIX", bitpix as i64);
            b.int("NAXIS", naxis.len() as i64);
            for (i, n) in naxis.iter().enumerate() {
                b.int(&format!("NAXIS{}", i + 1), *n as i64);
            }
            if primary {
                if l.chance(1, 2) {
                    b.logical("EXTEND", true);
                }
            } else {
                b.int("PCOUNT", 0);
                b.int("GCOUNT", 1);
            }
            if cfg.bscale {
                bscale = bscale_keys(l, &mut b);
            }
            filler(l, &mut b, cfg.rich_headers);
            let data = fill(l.below(1 << 30), 1 - l.below(2).min(1) + l.below(3), (npix * bp) as usize);
            (Kind::Image { bitpix, naxis }, data)
        }
        1 => {
            let naxis1 = l.range(1, 80) as usize;
            let rows = match l.weighted(&[4, 1, 1]) {
                0 => l.range(1, 10) as usize,
                1 => 0,
                _ => 2880 / naxis1 + 1,
            };
            let mut naxis1 = naxis1;
            let mut rows = rows;
            if l.chance(1, 6) {
                naxis1 = 80;
                rows = 36;
            }
            if cfg.odd > 0 && l.chance(1, cfg.odd) {
                naxis1 = limit_size(l);
                rows = l.range(1, 3) as usize;
                if l.chance(1, 2) {
                    std::mem::swap(&mut naxis1, &mut rows);
                }
            }
            b.xtension("TABLE", XtensionType::AsciiTable);
            b.int("BITPIX", 8);
            b.int("NAXIS", 2);
            b.int("NAXIS1", naxis1 as i64);
            b.int("NAXIS2", rows as i64);
            b.int("PCOUNT", 0);
            b.int("GCOUNT", 1);
            let nf = *l.pick(&[1u64, 2, 3, 0, 5, 11]);
            let mut fields = vec![];
            b.int("TFIELDS", nf as i64);
            for i in 1..=nf {
                let w = l.range(1, naxis1 as u64);
                let col = l.range(1, naxis1 as u64 - w + 1);
                let d = l.below(w);
                let (t, dbg) = match l.below(5) {
                    0 => (format!("A{w}"), format!("Character {{ w: {w} }}")),
                    1 => (format!("I{w}"), format!("DecimalInteger {{ w: {w} }}")),
                    2 => (format!("F{w}.{d}"), format!("FloatingPointFixed {{ w: {w}, d: {d} }}")),
                    3 => (format!("E{w}.{d}"), format!("EFloatingPointExp {{ w: {w}, d: {d} }}")),
                    _ => (format!("D{w}.{d}"), format!("DFloatingPointExp {{ w: {w}, d: {d} }}")),
                };
                let order = l.chance(1, 2);
                if order {
                    b.int(&format!("TBCOL{i}"), col as i64);
                }
                b.string(&format!("TFORM{i}"), &t);
                if !order {
                    b.int(&format!("TBCOL{i}"), col as i64);
                }
                fields.push((col, dbg));
            }
            filler(l, &mut b, cfg.rich_headers);
            let data = fill(l.below(1 << 30), l.below(4), naxis1 * rows);
            (Kind::Ascii { naxis1, rows, fields }, data)
        }
        2 => {
            let (s, d) = gen_bin(l, cfg);
            b.xtension("BINTABLE", XtensionType::BinTable);
            bin_header(l, &mut b, &s, &mut |_, _| {});
            filler(l, &mut b, cfg.rich_headers);
            (Kind::Bin(s), d)
        }
        _ => {
            let (mut s, mut t, d, mut ik, mut sk) = gen_tile(l, cfg);
            // tiles this reader cannot decode make a plain table
            let plain = l.chance(1, 12);
            if plain {
                let is_float = t.zbitpix < 0;
                match l.below(if is_float { 5 } else { 4 }) {
                    0 | 1 => sk[0].1 = l.pick(&["HCOMPRESS_1", "PLI0_1", "PLIO_1", "NOCOMPRESS", "GZIP_3"]).to_string(),
                    2 => ik[0].1 = 64,
                    3 => {
                        sk.remove(0);
                    }
                    _ => {
                        let n = *l.pick(&["ZSCALE", "ZZERO"]);
                        let c = s.cols.iter_mut().find(|c| c.name == Some(n)).unwrap();
                        match (l.below(4), c.kind) {
                            // no such column, one of another type, an empty one
                            (1, ColKind::Fixed(Ty::D, _)) => c.kind = ColKind::Fixed(*l.pick(&[Ty::K, Ty::C]), 1),
                            (1, _) if l.chance(1, 2) => c.kind = ColKind::Fixed(Ty::A, 4),
                            (1, _) => c.kind = ColKind::Fixed(Ty::J, 1),
                            (2, ColKind::Fixed(t, _)) => {
                                c.name = None;
                                let off = s.naxis1;
                                s.cols.push(Col { kind: ColKind::Fixed(t, 0), name: Some(n), off });
                            }
                            _ => c.name = None,
                        }
                    }
                }
            }
            b.xtension("BINTABLE", XtensionType::BinTable);
            bin_header(l, &mut b, &s, &mut |_, b| {
                b.logical("ZIMAGE", true);
                for (k, v) in &ik {
                    b.int(k, *v);
                }
                for (k, v) in &sk {
                    b.string(k, v);
                }
            });
            if cfg.bscale {
                bscale = bscale_keys(l, &mut b);
                t.bscale = bscale;
            }
            filler(l, &mut b, false);
            if plain {
                (Kind::Bin(s), d)
            } else {
                (Kind::Tile(s, t), d)
            }
        }
    };
    let (hdr, cards, keys, history, end) = b.finish();
    let data_off = at + hdr.len() as u64;
    HduSpec { primary, kind, cards, keys, history, hdr, data, hdr_off: at, data_off, end_card_end: at + end, bscale }
}

pub fn build(hdus: Vec<HduSpec>, base: u64, final_padding: bool) -> FileSpec {
    let mut bytes = fill(base, 3, base as usize);
    let n = hdus.len();
    for (i, h) in hdus.iter().enumerate() {
        assert_eq!(bytes.len() as u64, h.hdr_off);
        bytes.extend(&h.hdr);
        assert_eq!(bytes.len() as u64, h.data_off);
        bytes.extend(&h.data);
        if i + 1 < n || final_padding {
            let padc = if matches!(h.kind, Kind::Ascii { .. }) { b' ' } else { 0 };
            bytes.resize(h.next_off() as usize, padc);
        }
    }
    FileSpec { hdus, bytes: bytes.into(), base, final_padding }
}

pub fn gen_file(l: &mut Lane, cfg: &GenCfg) -> FileSpec {
    let base = if cfg.prefix && l.chance(1, 6) { *l.pick(&[1u64, 80, 2880, 1000, 2881]) } else { 0 };
    let next = l.weighted(&[2, 3, 3, 2]) as u64;
    let next = match next {
        3 => l.range(3, cfg.max_ext.max(3)),
        n => n,
    }
    .min(cfg.max_ext);
    // more HDUs than a small integer can count
    let many = cfg.odd > 0 && l.chance(1, 5 * cfg.odd);
    let next = if many { *l.pick(&[20, 35, 66, 130, 260]) } else { next };
    let small = GenCfg { odd: 0, rich_headers: false, big: false, ..*cfg };
    let cfg = if many { &small } else { cfg };
    let mut hdus: Vec<HduSpec> = vec![];
    let mut at = base;
    for i in 0..=next {
        let h = gen_hdu(l, i == 0, cfg, at);
        at = h.next_off();
        hdus.push(h);
    }
    let fp = !(cfg.allow_no_final_padding && l.chance(1, 5));
    build(hdus, base, fp)
}
