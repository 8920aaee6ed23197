// Writes and reads Lua byte code for the demonstrations.
#![allow(dead_code)]
use lunify::{BitWidth, Endianness, Format};

#[derive(Clone, Debug, PartialEq)]
pub enum K { Nil, Bool(bool), Num(f64), Str(Vec<u8>) }

#[derive(Clone, Debug, PartialEq, Default)]
pub struct F {
    pub source: Vec<u8>, pub line: i64, pub last: i64, pub ups: u8, pub params: u8, pub vararg: u8, pub stack: u8,
    pub code: Vec<u64>, pub consts: Vec<K>, pub protos: Vec<F>, pub lines: Vec<i64>, pub locals: Vec<(Vec<u8>, i64, i64)>, pub upvals: Vec<Vec<u8>>,
}

pub struct W { pub fmt: Format, pub out: Vec<u8> }

fn width(w: BitWidth) -> usize { match w { BitWidth::Bit32 => 4, BitWidth::Bit64 => 8 } }

impl W {
    pub fn put(&mut self, v: u64, n: usize) {
        let b = v.to_le_bytes();
        if self.fmt.endianness == Endianness::Little { self.out.extend_from_slice(&b[..n]) } else { self.out.extend(b[..n].iter().rev()) }
    }
    pub fn int(&mut self, v: i64) { self.put(v as u64, width(self.fmt.integer_width)) }
    pub fn ins(&mut self, v: u64) { self.put(v, width(self.fmt.instruction_width)) }
    pub fn num(&mut self, v: f64) {
        let n = width(self.fmt.number_width);
        let bits = match (self.fmt.is_number_integral, n) { (true, _) => v as i64 as u64, (false, 4) => (v as f32).to_bits() as u64, _ => v.to_bits() };
        self.put(bits, n)
    }
    pub fn text(&mut self, s: &[u8]) {
        let n = width(self.fmt.size_t_width);
        if s.is_empty() { return self.put(0, n); }
        self.put(s.len() as u64 + 1, n);
        self.out.extend_from_slice(s);
        self.out.push(0);
    }
    pub fn consts(&mut self, ks: &[K]) {
        self.int(ks.len() as i64);
        for k in ks {
            match k {
                K::Nil => self.out.push(0),
                K::Bool(b) => { self.out.push(1); self.out.push(*b as u8) }
                K::Num(n) => { self.out.push(3); self.num(*n) }
                K::Str(s) => { self.out.push(4); self.text(s) }
            }
        }
    }
    fn code(&mut self, f: &F) { self.int(f.code.len() as i64); for c in &f.code { self.ins(*c) } }
    fn lines(&mut self, f: &F) { self.int(f.lines.len() as i64); for l in &f.lines { self.int(*l) } }
    fn locals(&mut self, f: &F) { self.int(f.locals.len() as i64); for (n, s, e) in &f.locals { self.text(n); self.int(*s); self.int(*e) } }
    fn upvals(&mut self, f: &F) { self.int(f.upvals.len() as i64); for u in &f.upvals { self.text(u) } }
    pub fn f51(&mut self, f: &F) {
        self.text(&f.source); self.int(f.line); self.int(f.last);
        self.out.extend([f.ups, f.params, f.vararg, f.stack]);
        self.code(f); self.consts(&f.consts);
        self.int(f.protos.len() as i64); for p in &f.protos { self.f51(p) }
        self.lines(f); self.locals(f); self.upvals(f);
    }
    pub fn f50(&mut self, f: &F) {
        self.text(&f.source); self.int(f.line);
        self.out.extend([f.ups, f.params, f.vararg, f.stack]);
        self.lines(f); self.locals(f); self.upvals(f); self.consts(&f.consts);
        self.int(f.protos.len() as i64); for p in &f.protos { self.f50(p) }
        self.code(f);
    }
}

fn wb(w: BitWidth) -> u8 { width(w) as u8 }

pub fn fmt() -> Format {
    Format { format: 0, endianness: Endianness::Little, integer_width: BitWidth::Bit32, size_t_width: BitWidth::Bit64,
             instruction_width: BitWidth::Bit32, number_width: BitWidth::Bit64, is_number_integral: false }
}

pub fn head51(fmt: &Format) -> Vec<u8> {
    let mut v = b"\x1bLua\x51".to_vec();
    v.extend([fmt.format, (fmt.endianness == Endianness::Little) as u8, wb(fmt.integer_width), wb(fmt.size_t_width), wb(fmt.instruction_width), wb(fmt.number_width), fmt.is_number_integral as u8]);
    v
}

pub fn file51(f: &F, fmt: Format) -> Vec<u8> {
    let mut w = W { fmt, out: head51(&fmt) };
    w.f51(f);
    w.out
}

pub fn head50(fmt: &Format) -> Vec<u8> {
    let mut v = b"\x1bLua\x50".to_vec();
    v.extend([(fmt.endianness == Endianness::Little) as u8, wb(fmt.integer_width), wb(fmt.size_t_width), wb(fmt.instruction_width), 6, 8, 9, 9, wb(fmt.number_width)]);
    let mut w = W { fmt: *fmt, out: v };
    w.num(3.14159265358979323846E7);
    w.out
}

pub fn file50(f: &F, fmt: Format) -> Vec<u8> {
    let mut w = W { fmt, out: head50(&fmt) };
    w.f50(f);
    w.out
}

// instruction encoders: Lua 5.1 is op a c b, Lua 5.0 is op c b a
pub fn i51(op: u64, a: u64, b: u64, c: u64) -> u64 { op | a << 6 | c << 14 | b << 23 }
pub fn x51(op: u64, a: u64, bx: u64) -> u64 { op | a << 6 | bx << 14 }
pub fn s51(op: u64, a: u64, s: i64) -> u64 { x51(op, a, (s + 131071) as u64) }
pub fn i50(op: u64, a: u64, b: u64, c: u64) -> u64 { op | c << 6 | b << 15 | a << 24 }
pub fn x50(op: u64, a: u64, bx: u64) -> u64 { op | bx << 6 | a << 24 }
pub fn s50(op: u64, a: u64, s: i64) -> u64 { x50(op, a, (s + 131071) as u64) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct I { pub op: u64, pub a: u64, pub b: u64, pub c: u64, pub bx: u64, pub sbx: i64 }
pub fn d51(v: u64) -> I {
    let bx = v >> 14 & 0x3ffff;
    I { op: v & 63, a: v >> 6 & 255, c: v >> 14 & 511, b: v >> 23 & 511, bx, sbx: bx as i64 - 131071 }
}

pub struct R<'a> { pub fmt: Format, pub d: &'a [u8], pub p: usize }
impl<'a> R<'a> {
    pub fn get(&mut self, n: usize) -> u64 {
        let s = &self.d[self.p..self.p + n];
        self.p += n;
        let f = |acc: u64, b: &u8| acc << 8 | *b as u64;
        if self.fmt.endianness == Endianness::Little { s.iter().rev().fold(0, f) } else { s.iter().fold(0, f) }
    }
    pub fn byte(&mut self) -> u8 { self.p += 1; self.d[self.p - 1] }
    pub fn int(&mut self) -> i64 { match width(self.fmt.integer_width) { 4 => self.get(4) as u32 as i32 as i64, _ => self.get(8) as i64 } }
    pub fn num(&mut self) -> f64 {
        let n = width(self.fmt.number_width);
        let v = self.get(n);
        match (self.fmt.is_number_integral, n) { (true, 4) => v as u32 as i32 as f64, (true, _) => v as i64 as f64, (false, 4) => f32::from_bits(v as u32) as f64, _ => f64::from_bits(v) }
    }
    pub fn text(&mut self) -> Vec<u8> {
        let n = self.get(width(self.fmt.size_t_width)) as usize;
        if n == 0 { return vec![]; }
        let s = self.d[self.p..self.p + n - 1].to_vec();
        assert_eq!(self.d[self.p + n - 1], 0);
        self.p += n;
        s
    }
    pub fn f51(&mut self) -> F {
        let mut f = F { source: self.text(), line: self.int(), last: self.int(), ..F::default() };
        f.ups = self.byte(); f.params = self.byte(); f.vararg = self.byte(); f.stack = self.byte();
        for _ in 0..self.int() { let n = width(self.fmt.instruction_width); let v = self.get(n); f.code.push(v) }
        for _ in 0..self.int() {
            let k = match self.byte() { 0 => K::Nil, 1 => K::Bool(self.byte() != 0), 3 => K::Num(self.num()), 4 => K::Str(self.text()), t => panic!("constant {t}") };
            f.consts.push(k)
        }
        for _ in 0..self.int() { let p = self.f51(); f.protos.push(p) }
        for _ in 0..self.int() { let l = self.int(); f.lines.push(l) }
        for _ in 0..self.int() { let l = (self.text(), self.int(), self.int()); f.locals.push(l) }
        for _ in 0..self.int() { let u = self.text(); f.upvals.push(u) }
        f
    }
}

pub fn read51(d: &[u8], fmt: Format) -> F {
    assert_eq!(&d[..12], &head51(&fmt)[..], "header");
    let mut r = R { fmt, d, p: 12 };
    let f = r.f51();
    assert_eq!(r.p, d.len(), "trailing bytes");
    f
}
