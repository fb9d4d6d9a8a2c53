//! Reference model of the wire format, of the name grammars and of match rules, written from the
//! D-Bus specification (and the documented divergences listed in DESIGN.md). It shares no code and
//! no types with the crate.

use crate::engine::rec;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum T {
    /// A type with a one-letter code that is not a container prefix (includes 'v').
    P(u8),
    A(Box<T>),
    St(Vec<T>),
    De(Box<(T, T)>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum V {
    Y(u8),
    B(bool),
    N(i16),
    Q(u16),
    I(i32),
    U(u32),
    X(i64),
    Tt(u64),
    D(u64),
    S(String),
    O(String),
    G(Vec<T>),
    H(i32),
    A(T, Vec<V>),
    St(Vec<V>),
    De(Box<(V, V)>),
    Va(Box<V>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct M {
    pub le: bool,
    pub ty: u8,
    pub flags: u8,
    pub ver: u8,
    pub serial: u32,
    pub path: Option<String>,
    pub iface: Option<String>,
    pub member: Option<String>,
    pub ename: Option<String>,
    pub rserial: Option<u32>,
    pub dest: Option<String>,
    pub sender: Option<String>,
    /// A signature left in the header by the caller; ignored by encoding.
    pub sig: Option<Vec<T>>,
    pub fds: Option<u32>,
    pub body: Vec<V>,
}

pub const BASIC: &[u8] = b"ybnqiuxtdsoghv";

pub fn align(t: &T) -> usize {
    match t {
        T::P(c) => match c {
            b'y' | b'g' | b'v' => 1,
            b'n' | b'q' => 2,
            b'b' | b'i' | b'u' | b's' | b'o' | b'h' => 4,
            _ => 8,
        },
        T::A(_) => 4,
        T::St(_) | T::De(_) => 8,
    }
}

pub fn tstr(t: &T, s: &mut String) {
    match t {
        T::P(c) => s.push(*c as char),
        T::A(t) => {
            s.push('a');
            tstr(t, s)
        }
        T::St(ts) => {
            s.push('(');
            ts.iter().for_each(|t| tstr(t, s));
            s.push(')')
        }
        T::De(kv) => {
            s.push('{');
            tstr(&kv.0, s);
            tstr(&kv.1, s);
            s.push('}')
        }
    }
}
pub fn sigstr(ts: &[T]) -> String {
    let mut s = String::new();
    ts.iter().for_each(|t| tstr(t, &mut s));
    s
}

pub fn vtype(v: &V) -> T {
    match v {
        V::Y(_) => T::P(b'y'),
        V::B(_) => T::P(b'b'),
        V::N(_) => T::P(b'n'),
        V::Q(_) => T::P(b'q'),
        V::I(_) => T::P(b'i'),
        V::U(_) => T::P(b'u'),
        V::X(_) => T::P(b'x'),
        V::Tt(_) => T::P(b't'),
        V::D(_) => T::P(b'd'),
        V::S(_) => T::P(b's'),
        V::O(_) => T::P(b'o'),
        V::G(_) => T::P(b'g'),
        V::H(_) => T::P(b'h'),
        V::A(t, _) => T::A(Box::new(t.clone())),
        V::St(vs) => T::St(vs.iter().map(vtype).collect()),
        V::De(kv) => T::De(Box::new((vtype(&kv.0), vtype(&kv.1)))),
        V::Va(_) => T::P(b'v'),
    }
}

// ---------------------------------------------------------------------------------------------
// Signature grammar

fn parse_one(s: &[u8], pos: &mut usize, a: u32, st: u32, d: u32) -> Option<T> {
    if a > 32 || st > 32 || d > 32 {
        return None;
    }
    let c = *s.get(*pos)?;
    rec::step(c as u64, 100 + mixdepth(a, st, d));
    *pos += 1;
    if BASIC.contains(&c) {
        return Some(T::P(c));
    }
    match c {
        b'a' => Some(T::A(Box::new(parse_one(s, pos, a + 1, st, d)?))),
        b'(' => {
            let mut ts = Vec::new();
            loop {
                if *s.get(*pos)? == b')' {
                    *pos += 1;
                    if ts.is_empty() {
                        return None;
                    }
                    rec::step(b')' as u64, 100 + mixdepth(a, st, d));
                    return Some(T::St(ts));
                }
                ts.push(parse_one(s, pos, a, st + 1, d)?);
            }
        }
        b'{' => {
            let k = parse_one(s, pos, a, st, d + 1)?;
            let v = parse_one(s, pos, a, st, d + 1)?;
            if *s.get(*pos)? != b'}' {
                return None;
            }
            *pos += 1;
            rec::step(b'}' as u64, 100 + mixdepth(a, st, d));
            Some(T::De(Box::new((k, v))))
        }
        _ => None,
    }
}
fn mixdepth(a: u32, st: u32, d: u32) -> u64 {
    (a as u64) << 16 | (st as u64) << 8 | d as u64
}
/// A sequence of complete types.
pub fn parse_sig(s: &[u8]) -> Option<Vec<T>> {
    if s.len() > 255 {
        return None;
    }
    rec::start(100);
    let mut pos = 0;
    let mut out = Vec::new();
    while pos < s.len() {
        out.push(parse_one(s, &mut pos, 0, 0, 0)?);
    }
    Some(out)
}
/// Exactly one complete type.
pub fn parse_type(s: &[u8]) -> Option<T> {
    if s.len() > 255 {
        return None;
    }
    rec::start(100);
    let mut pos = 0;
    let t = parse_one(s, &mut pos, 0, 0, 0)?;
    if pos == s.len() {
        Some(t)
    } else {
        None
    }
}
/// Does this type tree denote a signature at all (no empty struct, depths within limits)?
pub fn type_ok(t: &T, a: u32, st: u32, d: u32) -> bool {
    if a > 32 || st > 32 || d > 32 {
        return false;
    }
    match t {
        T::P(_) => true,
        T::A(t) => type_ok(t, a + 1, st, d),
        T::St(ts) => !ts.is_empty() && ts.iter().all(|t| type_ok(t, a, st + 1, d)),
        T::De(kv) => type_ok(&kv.0, a, st, d + 1) && type_ok(&kv.1, a, st, d + 1),
    }
}
pub fn sig_ok(ts: &[T]) -> bool {
    ts.iter().all(|t| type_ok(t, 0, 0, 0)) && sigstr(ts).len() <= 255
}

// ---------------------------------------------------------------------------------------------
// Names and paths

fn al(c: u8) -> bool {
    c.is_ascii_uppercase() || c.is_ascii_lowercase() || c == b'_'
}
fn dig(c: u8) -> bool {
    (b'0'..=b'9').contains(&c)
}
/// Elements joined by dots: at least `min` of them, each non-empty, of the allowed characters.
fn elements(s: &[u8], min: usize, hyphen: bool, digit_start: bool, tag: u64) -> bool {
    rec::start(tag);
    let mut first = true;
    let mut count = 1usize;
    let mut ok = true;
    for &c in s {
        if c == b'.' {
            if first {
                ok = false;
            }
            count += 1;
            first = true;
        } else if al(c) || (hyphen && c == b'-') {
            first = false;
        } else if dig(c) {
            if first && !digit_start {
                ok = false;
            }
            first = false;
        } else {
            ok = false;
        }
        let class = if c == b'.' { 1 } else if dig(c) { 2 } else if al(c) { 3 } else { c as u64 + 8 };
        rec::step(class, tag + ((ok as u64) << 6 | (first as u64) << 5 | count.min(3) as u64));
        if !ok {
            return false;
        }
    }
    !first && count >= min
}
pub fn is_interface(s: &[u8]) -> bool {
    s.len() <= 255 && elements(s, 2, false, false, 0x1000)
}
pub fn is_error_name(s: &[u8]) -> bool {
    s.len() <= 255 && elements(s, 2, false, false, 0x2000)
}
pub fn is_member(s: &[u8]) -> bool {
    s.len() <= 255 && !s.contains(&b'.') && elements(s, 1, false, false, 0x3000)
}
pub fn is_well_known(s: &[u8]) -> bool {
    s.len() <= 255 && elements(s, 2, true, false, 0x4000)
}
pub fn is_unique(s: &[u8]) -> bool {
    s.len() <= 255 && s.first() == Some(&b':') && elements(&s[1..], 2, true, true, 0x5000)
}
pub fn is_bus(s: &[u8]) -> bool {
    if s.first() == Some(&b':') {
        is_unique(s)
    } else {
        is_well_known(s)
    }
}
pub fn is_element(s: &[u8]) -> bool {
    !s.is_empty() && s.iter().all(|&c| al(c) || dig(c))
}
pub fn is_path(s: &[u8]) -> bool {
    rec::start(0x6000);
    if s.first() != Some(&b'/') {
        return false;
    }
    if s.len() == 1 {
        return true;
    }
    let mut prev_slash = true;
    for &c in &s[1..] {
        let slash = c == b'/';
        if slash && prev_slash {
            return false;
        }
        if !slash && !al(c) && !dig(c) {
            return false;
        }
        rec::step(slash as u64, 0x6001 + slash as u64);
        prev_slash = slash;
    }
    !prev_slash
}

// ---------------------------------------------------------------------------------------------
// Reference encoder

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Pad,
    Num,
    Bool,
    StrLen,
    ArrLen,
    Str,
    SigLen,
    Sig,
    Nul,
    Byte,
    FdIx,
}
#[derive(Clone, Debug)]
pub struct Region {
    pub off: usize,
    pub len: usize,
    pub kind: Kind,
}

pub struct Enc {
    pub buf: Vec<u8>,
    pub le: bool,
    pub fds: Vec<i32>,
    pub regions: Vec<Region>,
    ctx: u64,
}
impl Enc {
    pub fn new(le: bool) -> Enc {
        Enc { buf: Vec::new(), le, fds: Vec::new(), regions: Vec::new(), ctx: 0 }
    }
    fn mark(&mut self, len: usize, kind: Kind) {
        if len > 0 {
            self.regions.push(Region { off: self.buf.len(), len, kind });
        }
    }
    fn st(&self, label: u64) {
        rec::step(label, 0x10_0000 + (self.ctx << 4 | (self.buf.len() as u64 & 7) << 1 | self.le as u64));
    }
    pub fn pad(&mut self, a: usize) {
        let n = (a - self.buf.len() % a) % a;
        self.mark(n, Kind::Pad);
        for _ in 0..n {
            self.buf.push(0);
        }
    }
    fn num(&mut self, b: &[u8], kind: Kind) {
        // b is little endian
        self.pad(b.len());
        self.mark(b.len(), kind);
        if self.le {
            self.buf.extend_from_slice(b);
        } else {
            self.buf.extend(b.iter().rev());
        }
    }
    fn str_(&mut self, s: &str) {
        self.num(&(s.len() as u32).to_le_bytes(), Kind::StrLen);
        self.mark(s.len(), Kind::Str);
        self.buf.extend_from_slice(s.as_bytes());
        self.mark(1, Kind::Nul);
        self.buf.push(0);
    }
    pub fn sig(&mut self, ts: &[T]) {
        let s = sigstr(ts);
        self.mark(1, Kind::SigLen);
        self.buf.push(s.len() as u8);
        self.mark(s.len(), Kind::Sig);
        self.buf.extend_from_slice(s.as_bytes());
        self.mark(1, Kind::Nul);
        self.buf.push(0);
    }
    pub fn val(&mut self, v: &V) {
        match v {
            V::Y(x) => {
                self.mark(1, Kind::Byte);
                self.buf.push(*x)
            }
            V::B(x) => self.num(&(*x as u32).to_le_bytes(), Kind::Bool),
            V::N(x) => self.num(&x.to_le_bytes(), Kind::Num),
            V::Q(x) => self.num(&x.to_le_bytes(), Kind::Num),
            V::I(x) => self.num(&x.to_le_bytes(), Kind::Num),
            V::U(x) => self.num(&x.to_le_bytes(), Kind::Num),
            V::X(x) => self.num(&x.to_le_bytes(), Kind::Num),
            V::Tt(x) => self.num(&x.to_le_bytes(), Kind::Num),
            V::D(x) => self.num(&x.to_le_bytes(), Kind::Num),
            V::S(s) => self.str_(s),
            V::O(s) => self.str_(s),
            V::G(ts) => self.sig(ts),
            V::H(fd) => {
                let ix = match self.fds.iter().position(|x| x == fd) {
                    Some(i) => i,
                    None => {
                        self.fds.push(*fd);
                        self.fds.len() - 1
                    }
                };
                self.num(&(ix as u32).to_le_bytes(), Kind::FdIx)
            }
            V::A(t, vs) => {
                self.num(&[0, 0, 0, 0], Kind::ArrLen);
                let at = self.buf.len() - 4;
                self.pad(align(t));
                let start = self.buf.len();
                let c = self.ctx;
                self.ctx = (c << 2 | 1) & 0xff;
                for v in vs {
                    self.val(v);
                }
                self.ctx = c;
                let n = (self.buf.len() - start) as u32;
                let b = if self.le { n.to_le_bytes() } else { n.to_be_bytes() };
                self.buf[at..at + 4].copy_from_slice(&b);
            }
            V::St(vs) => {
                self.pad(8);
                let c = self.ctx;
                self.ctx = (c << 2 | 2) & 0xff;
                for v in vs {
                    self.val(v);
                }
                self.ctx = c;
            }
            V::De(kv) => {
                self.pad(8);
                let c = self.ctx;
                self.ctx = (c << 2 | 2) & 0xff;
                self.val(&kv.0);
                self.val(&kv.1);
                self.ctx = c;
            }
            V::Va(v) => {
                self.sig(&[vtype(v)]);
                let c = self.ctx;
                self.ctx = (c << 2 | 3) & 0xff;
                self.val(v);
                self.ctx = c;
            }
        }
        self.st(vlabel(v));
    }
}
fn vlabel(v: &V) -> u64 {
    match v {
        V::Y(_) => 1,
        V::B(_) => 2,
        V::N(_) => 3,
        V::Q(_) => 4,
        V::I(_) => 5,
        V::U(_) => 6,
        V::X(_) => 7,
        V::Tt(_) => 8,
        V::D(_) => 9,
        V::S(s) => 16 + (s.len() as u64 & 7),
        V::O(s) => 24 + (s.len() as u64 & 7),
        V::G(s) => 32 + (s.len() as u64 & 7),
        V::H(_) => 10,
        V::A(_, vs) => 40 + (vs.len() as u64).min(3),
        V::St(vs) => 44 + (vs.len() as u64).min(3),
        V::De(_) => 11,
        V::Va(_) => 12,
    }
}

/// How to lay out the header fields.
#[derive(Clone, Default)]
pub struct HeaderForm {
    /// Order of the field codes; ascending if None.
    pub order: Option<Vec<u8>>,
    /// Write an explicit empty signature field when the body is empty.
    pub empty_sig: bool,
}

pub struct Wire {
    pub bytes: Vec<u8>,
    pub fds: Vec<i32>,
    pub regions: Vec<Region>,
    pub body_off: usize,
    pub hdr_fields_end: usize,
}

pub fn field_pair(code: u8, v: V) -> V {
    V::St(vec![V::Y(code), V::Va(Box::new(v))])
}

/// The header fields of `m` (code, value), ascending, as encoding writes them.
pub fn header_fields(m: &M, nfds: usize, empty_sig: bool) -> Vec<(u8, V)> {
    let mut f = Vec::new();
    let s = |o: &Option<String>| o.clone().map(V::S);
    if let Some(p) = &m.path {
        f.push((1, V::O(p.clone())));
    }
    for (c, o) in [(2, s(&m.iface)), (3, s(&m.member)), (4, s(&m.ename)), (5, m.rserial.map(V::U)), (6, s(&m.dest)), (7, s(&m.sender))] {
        if let Some(v) = o {
            f.push((c, v));
        }
    }
    if !m.body.is_empty() {
        f.push((8, V::G(m.body.iter().map(vtype).collect())));
    } else if empty_sig {
        f.push((8, V::G(Vec::new())));
    }
    if nfds > 0 {
        f.push((9, V::U(nfds as u32)));
    } else if let Some(n) = m.fds {
        f.push((9, V::U(n)));
    }
    f
}

pub fn encode(m: &M, form: &HeaderForm) -> Wire {
    rec::start(0x10_0000);
    let mut be = Enc::new(m.le);
    for v in &m.body {
        be.val(v);
    }
    let mut fields = header_fields(m, be.fds.len(), form.empty_sig);
    if let Some(o) = &form.order {
        fields.sort_by_key(|(c, _)| o.iter().position(|x| x == c).unwrap_or(99));
    }
    let fields: Vec<V> = fields.into_iter().map(|(c, v)| field_pair(c, v)).collect();
    encode_raw(m, &fields, be)
}

/// Encode with explicit raw header-field structs (`fields`) and an encoded body.
pub fn encode_raw(m: &M, fields: &[V], body: Enc) -> Wire {
    let t = T::St(vec![T::P(b'y'), T::P(b'v')]);
    let mut e = Enc::new(m.le);
    rec::start(0x10_0000);
    for b in [if m.le { b'l' } else { b'B' }, m.ty, m.flags, m.ver] {
        e.val(&V::Y(b));
    }
    e.val(&V::U(body.buf.len() as u32));
    e.val(&V::U(m.serial));
    e.val(&V::A(t, fields.to_vec()));
    let hdr_fields_end = e.buf.len();
    e.pad(8);
    let body_off = e.buf.len();
    let mut regions = e.regions;
    for r in &body.regions {
        regions.push(Region { off: r.off + body_off, len: r.len, kind: r.kind });
    }
    let mut bytes = e.buf;
    bytes.extend_from_slice(&body.buf);
    Wire { bytes, fds: body.fds, regions, body_off, hdr_fields_end }
}

/// Is the message within the encodable domain: valid body signature, limits, variant depth.
pub fn encodable(m: &M) -> bool {
    let ts: Vec<T> = m.body.iter().map(vtype).collect();
    sig_ok(&ts) && m.body.iter().all(|v| val_ok(v, 0))
}
pub fn val_ok(v: &V, vd: u32) -> bool {
    match v {
        V::G(ts) => sig_ok(ts),
        V::S(s) => !s.contains('\0'),
        V::A(_, vs) => vs.iter().all(|v| val_ok(v, vd)),
        V::St(vs) => vs.iter().all(|v| val_ok(v, vd)),
        V::De(kv) => val_ok(&kv.0, vd) && val_ok(&kv.1, vd),
        V::Va(v) => vd < 4 && sig_ok(&[vtype(v)]) && val_ok(v, vd + 1),
        _ => true,
    }
}

/// The message that decoding the encoding of `m` must give.
pub fn canonical(m: &M, fds: &[i32]) -> M {
    let mut c = m.clone();
    c.sig = None;
    if !fds.is_empty() {
        c.fds = Some(fds.len() as u32);
    }
    c
}

pub fn has_fd(v: &V) -> bool {
    match v {
        V::H(_) => true,
        V::A(_, vs) | V::St(vs) => vs.iter().any(has_fd),
        V::De(kv) => has_fd(&kv.0) || has_fd(&kv.1),
        V::Va(v) => has_fd(v),
        _ => false,
    }
}

// ---------------------------------------------------------------------------------------------
// Reference decoder

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rej {
    Short,
    Bad(&'static str),
}
type R<X> = Result<X, Rej>;

pub struct Dec<'a> {
    pub b: &'a [u8],
    pub pos: usize,
    pub le: bool,
    pub fds: &'a [i32],
    pub used: usize,
    ctx: u64,
}
impl<'a> Dec<'a> {
    pub fn new(b: &'a [u8], fds: &'a [i32]) -> Dec<'a> {
        Dec { b, pos: 0, le: true, fds, used: 0, ctx: 0 }
    }
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if n > self.b.len() - self.pos {
            return Err(Rej::Short);
        }
        let s = &self.b[self.pos..self.pos + n];
        self.pos += n;
        Ok(s)
    }
    fn pad(&mut self, a: usize) -> R<()> {
        let n = (a - self.pos % a) % a;
        if self.take(n)?.iter().any(|x| *x != 0) {
            return Err(Rej::Bad("padding"));
        }
        Ok(())
    }
    fn num<const N: usize>(&mut self) -> R<[u8; N]> {
        self.pad(N)?;
        let s = self.take(N)?;
        let mut o = [0u8; N];
        o.copy_from_slice(s);
        if !self.le {
            o.reverse();
        }
        Ok(o)
    }
    fn u32(&mut self) -> R<u32> {
        Ok(u32::from_le_bytes(self.num::<4>()?))
    }
    fn text(&mut self, n: usize) -> R<&'a [u8]> {
        let s = self.take(n)?;
        if self.take(1)?[0] != 0 {
            return Err(Rej::Bad("nul"));
        }
        Ok(s)
    }
    fn string(&mut self) -> R<String> {
        let n = self.u32()? as usize;
        let s = self.text(n)?;
        let s = std::str::from_utf8(s).map_err(|_| Rej::Bad("utf8"))?;
        if s.contains('\0') {
            return Err(Rej::Bad("embedded nul"));
        }
        Ok(s.to_string())
    }
    fn val(&mut self, t: &T, vd: u32) -> R<V> {
        let r = self.val0(t, vd)?;
        rec::step(vlabel(&r), 0x20_0000 + (self.ctx << 4 | (self.pos as u64 & 7) << 1 | self.le as u64));
        Ok(r)
    }
    fn val0(&mut self, t: &T, vd: u32) -> R<V> {
        Ok(match t {
            T::P(c) => match c {
                b'y' => V::Y(self.take(1)?[0]),
                b'b' => match self.u32()? {
                    0 => V::B(false),
                    1 => V::B(true),
                    _ => return Err(Rej::Bad("boolean")),
                },
                b'n' => V::N(i16::from_le_bytes(self.num()?)),
                b'q' => V::Q(u16::from_le_bytes(self.num()?)),
                b'i' => V::I(i32::from_le_bytes(self.num()?)),
                b'u' => V::U(u32::from_le_bytes(self.num()?)),
                b'x' => V::X(i64::from_le_bytes(self.num()?)),
                b't' => V::Tt(u64::from_le_bytes(self.num()?)),
                b'd' => V::D(u64::from_le_bytes(self.num()?)),
                b's' => V::S(self.string()?),
                b'o' => {
                    let n = self.u32()? as usize;
                    let s = self.text(n)?;
                    if !is_path(s) {
                        return Err(Rej::Bad("path"));
                    }
                    V::O(String::from_utf8(s.to_vec()).unwrap())
                }
                b'g' => {
                    let n = self.take(1)?[0] as usize;
                    let s = self.text(n)?;
                    V::G(parse_sig(s).ok_or(Rej::Bad("signature"))?)
                }
                b'h' => {
                    let i = self.u32()? as usize;
                    let fd = *self.fds.get(i).ok_or(Rej::Bad("fd index"))?;
                    self.used = self.used.max(i + 1);
                    V::H(fd)
                }
                b'v' => {
                    if vd >= 4 {
                        return Err(Rej::Bad("variant depth"));
                    }
                    let n = self.take(1)?[0] as usize;
                    let s = self.text(n)?;
                    let t = parse_type(s).ok_or(Rej::Bad("variant signature"))?;
                    let c = self.ctx;
                    self.ctx = (c << 2 | 3) & 0xff;
                    let v = self.val(&t, vd + 1)?;
                    self.ctx = c;
                    V::Va(Box::new(v))
                }
                _ => unreachable!(),
            },
            T::A(t) => {
                let vs = self.array(t, vd)?;
                V::A((**t).clone(), vs)
            }
            T::St(ts) => {
                self.pad(8)?;
                let c = self.ctx;
                self.ctx = (c << 2 | 2) & 0xff;
                let mut vs = Vec::new();
                for t in ts {
                    vs.push(self.val(t, vd)?);
                }
                self.ctx = c;
                V::St(vs)
            }
            T::De(kv) => {
                self.pad(8)?;
                let c = self.ctx;
                self.ctx = (c << 2 | 2) & 0xff;
                let k = self.val(&kv.0, vd)?;
                let v = self.val(&kv.1, vd)?;
                self.ctx = c;
                V::De(Box::new((k, v)))
            }
        })
    }
    fn array(&mut self, t: &T, vd: u32) -> R<Vec<V>> {
        let n = self.u32()? as usize;
        if n > 1 << 26 {
            return Err(Rej::Bad("array too big"));
        }
        self.pad(align(t))?;
        let end = self.pos + n;
        let c = self.ctx;
        self.ctx = (c << 2 | 1) & 0xff;
        let mut vs = Vec::new();
        while self.pos < end {
            vs.push(self.val(t, vd)?);
        }
        self.ctx = c;
        if self.pos != end {
            return Err(Rej::Bad("array length"));
        }
        Ok(vs)
    }
}

pub fn required_ok(m: &M) -> bool {
    match m.ty {
        1 => m.path.is_some() && m.member.is_some(),
        2 => m.rserial.is_some(),
        3 => m.ename.is_some() && m.rserial.is_some(),
        4 => m.path.is_some() && m.iface.is_some() && m.member.is_some(),
        _ => false,
    }
}

/// Apply raw header-field values to `m`; the result is the signature field.
pub fn apply_fields(m: &mut M, fields: &[V]) -> Result<Option<Vec<T>>, &'static str> {
    let mut seen = [false; 10];
    let mut sig = None;
    for f in fields {
        let vs = match f {
            V::St(vs) => vs,
            _ => return Err("not a struct"),
        };
        if vs.len() != 2 {
            return Err("not a pair");
        }
        let (c, v) = match (&vs[0], &vs[1]) {
            (V::Y(c), V::Va(v)) => (*c, &**v),
            _ => return Err("not byte and variant"),
        };
        if c == 0 || c > 9 {
            return Err("unknown field code");
        }
        if seen[c as usize] {
            return Err("repeated field");
        }
        seen[c as usize] = true;
        match (c, v) {
            (1, V::O(p)) => m.path = Some(p.clone()),
            (2, V::S(s)) if is_interface(s.as_bytes()) => m.iface = Some(s.clone()),
            (3, V::S(s)) if is_member(s.as_bytes()) => m.member = Some(s.clone()),
            (4, V::S(s)) if is_error_name(s.as_bytes()) => m.ename = Some(s.clone()),
            (5, V::U(n)) => m.rserial = Some(*n),
            (6, V::S(s)) if is_bus(s.as_bytes()) => m.dest = Some(s.clone()),
            (7, V::S(s)) if is_bus(s.as_bytes()) => m.sender = Some(s.clone()),
            (8, V::G(ts)) => sig = Some(ts.clone()),
            (9, V::U(n)) => m.fds = Some(*n),
            _ => return Err("wrong type or invalid value"),
        }
    }
    Ok(sig)
}

pub fn empty_m() -> M {
    M { le: true, ty: 1, flags: 0, ver: 1, serial: 0, path: None, iface: None, member: None, ename: None, rserial: None, dest: None, sender: None, sig: None, fds: None, body: Vec::new() }
}

/// Decode: the message, bytes consumed, descriptors used.
pub fn decode(b: &[u8], fds: &[i32]) -> Result<(M, usize, usize), Rej> {
    rec::start(0x20_0000);
    let b = if b.len() > 1 << 27 { &b[..1 << 27] } else { b };
    let mut d = Dec::new(b, fds);
    let mut m = empty_m();
    m.le = match d.take(1)?[0] {
        b'l' => true,
        b'B' => false,
        _ => return Err(Rej::Bad("endianness")),
    };
    d.le = m.le;
    m.ty = d.take(1)?[0];
    if m.ty == 0 || m.ty > 4 {
        return Err(Rej::Bad("message type"));
    }
    m.flags = d.take(1)?[0];
    if m.flags & !7 != 0 {
        return Err(Rej::Bad("flags"));
    }
    m.ver = d.take(1)?[0];
    let blen = d.u32()? as usize;
    m.serial = d.u32()?;
    let ft = T::St(vec![T::P(b'y'), T::P(b'v')]);
    let fields = d.array(&ft, 0)?;
    let sig = apply_fields(&mut m, &fields).map_err(Rej::Bad)?;
    if !required_ok(&m) {
        return Err(Rej::Bad("required field"));
    }
    let sig = sig.unwrap_or_default();
    if blen == 0 && !sig.is_empty() {
        return Err(Rej::Bad("signature without body"));
    }
    if blen != 0 && sig.is_empty() {
        return Err(Rej::Bad("body without signature"));
    }
    d.pad(8)?;
    let start = d.pos;
    for t in &sig {
        let v = d.val(t, 0)?;
        m.body.push(v);
    }
    if d.pos - start != blen {
        return Err(Rej::Bad("body length"));
    }
    Ok((m, d.pos, d.used))
}

// ---------------------------------------------------------------------------------------------
// Match rules

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Rule {
    Type(u8),
    Sender(String),
    Interface(String),
    Member(String),
    Path(String),
    PathNs(String),
    Dest(String),
    Arg(usize, String),
    ArgPath(usize, String),
    Arg0Ns(String),
    Eaves(bool),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Parsed {
    Rules(Vec<Rule>),
    Refused(&'static str),
    /// The specification and the repository's tests leave this text open.
    Open,
}

/// Parse match rule text.
pub fn parse_rules(s: &str) -> Parsed {
    let cs: Vec<char> = s.chars().collect();
    let mut out = Vec::new();
    let mut i = 0;
    let mut open = false;
    rec::start(0x7000);
    while i < cs.len() {
        // key
        let mut key = String::new();
        loop {
            match cs.get(i) {
                None => return Parsed::Refused("missing equal sign"),
                Some('=') => {
                    i += 1;
                    break;
                }
                Some(c) if c.is_ascii_alphanumeric() || *c == '_' => {
                    key.push(*c);
                    i += 1;
                }
                Some(_) => return Parsed::Refused("ill-formed key"),
            }
        }
        if key.is_empty() {
            return Parsed::Refused("empty key");
        }
        rec::step(1, 0x7001);
        // value
        let mut val = String::new();
        let mut inq = false;
        let mut ended_by_comma = false;
        while i < cs.len() {
            let c = cs[i];
            let next = cs.get(i + 1).copied();
            if inq {
                if c == '\'' {
                    inq = false;
                } else {
                    val.push(c);
                }
                i += 1;
            } else if c == '\'' {
                inq = true;
                i += 1;
            } else if c == '\\' && next == Some('\'') {
                val.push('\'');
                i += 2;
            } else if c == ',' {
                ended_by_comma = true;
                i += 1;
                break;
            } else {
                val.push(c);
                i += 1;
            }
            let cl = match c {
                '\'' => 2,
                '\\' => 3 + (next == Some('\'')) as u64,
                ',' => 5,
                '=' => 6,
                _ => 7,
            };
            rec::step(cl, 0x7002 + inq as u64);
        }
        if inq {
            return Parsed::Refused("unterminated quote");
        }
        match make_rule(&key, &val) {
            RuleOf::Ok(r) => out.push(r),
            RuleOf::No(e) => return Parsed::Refused(e),
            RuleOf::Open => open = true,
        }
        if ended_by_comma && i >= cs.len() {
            open = true; // trailing comma
        }
        rec::step(8, 0x7000);
    }
    if open {
        Parsed::Open
    } else {
        Parsed::Rules(out)
    }
}

pub enum RuleOf {
    Ok(Rule),
    No(&'static str),
    Open,
}

pub fn make_rule(key: &str, val: &str) -> RuleOf {
    use RuleOf::*;
    let b = val.as_bytes();
    let v = val.to_string();
    let chk = |ok: bool, r: Rule| if ok { Ok(r) } else { No("invalid value") };
    match key {
        "type" => match val {
            "method_call" => Ok(Rule::Type(1)),
            "method_return" => Ok(Rule::Type(2)),
            "error" => Ok(Rule::Type(3)),
            "signal" => Ok(Rule::Type(4)),
            _ => No("invalid value"),
        },
        "sender" => chk(is_bus(b), Rule::Sender(v)),
        "interface" => chk(is_interface(b), Rule::Interface(v)),
        "member" => chk(is_member(b), Rule::Member(v)),
        "path" => chk(is_path(b), Rule::Path(v)),
        "path_namespace" => chk(is_path(b), Rule::PathNs(v)),
        "destination" => chk(is_unique(b), Rule::Dest(v)),
        "arg0namespace" => chk(is_interface(b), Rule::Arg0Ns(v)),
        "eavesdrop" => match val {
            "true" => Ok(Rule::Eaves(true)),
            "false" => Ok(Rule::Eaves(false)),
            _ => No("invalid value"),
        },
        k => {
            let rest = match k.strip_prefix("arg") {
                Some(r) => r,
                None => return No("unknown key"),
            };
            let digits: String = rest.chars().take_while(|c| c.is_ascii_digit()).collect();
            let tail = &rest[digits.len()..];
            if digits.is_empty() || !(tail.is_empty() || tail == "path") {
                return No("unknown key");
            }
            if digits.len() > 1 && digits.starts_with('0') {
                return Open; // leading zeros
            }
            let n: u128 = match digits.parse() {
                Result::Ok(n) => n,
                Err(_) => u128::MAX,
            };
            if tail == "path" {
                if !is_path(b) {
                    return No("invalid value");
                }
                if n > 63 {
                    return Open; // the crate accepts these, the specification does not
                }
                Ok(Rule::ArgPath(n as usize, v))
            } else if n > 63 {
                No("argument index")
            } else {
                Ok(Rule::Arg(n as usize, v))
            }
        }
    }
}

/// Some(expected) or None where the outcome is left open.
pub fn matches(r: &Rule, m: &M) -> Option<bool> {
    let ns = |ns: &str, p: &str| ns == "/" || p == ns || (p.starts_with(ns) && p.as_bytes()[ns.len()] == b'/');
    Some(match r {
        Rule::Type(t) => m.ty == *t,
        Rule::Sender(s) => m.sender.as_ref() == Some(s),
        Rule::Interface(s) => m.iface.as_ref() == Some(s),
        Rule::Member(s) => m.member.as_ref() == Some(s),
        Rule::Path(s) => m.path.as_ref() == Some(s),
        Rule::Dest(s) => m.dest.as_ref() == Some(s),
        Rule::PathNs(s) => match &m.path {
            Some(p) => ns(s, p),
            None => false,
        },
        Rule::Arg(n, s) => matches!(m.body.get(*n), Some(V::S(x)) if x == s),
        Rule::ArgPath(n, s) => {
            let a = match m.body.get(*n) {
                Some(V::S(x)) | Some(V::O(x)) => x,
                _ => return Some(false),
            };
            if is_path(a.as_bytes()) {
                // "/" ends in a slash and is a prefix of every rule path
                a == "/" || ns(s, a)
            } else if a.ends_with('/') && s.starts_with(a.as_str()) {
                true
            } else if a.starts_with('/') && ns(s, a) {
                // neither a path nor a proper directory prefix: e.g. "/a/" or "/a//b" against "/a"
                return None;
            } else {
                false
            }
        }
        Rule::Arg0Ns(s) => match m.body.first() {
            Some(V::S(x)) => {
                if x == s {
                    true
                } else if x.starts_with(s.as_str()) && x.as_bytes()[s.len()] == b'.' {
                    if x[s.len()..].contains("..") || x.ends_with('.') {
                        return None;
                    }
                    true
                } else {
                    false
                }
            }
            _ => false,
        },
        Rule::Eaves(_) => true,
    })
}
