//! What a public function is expected to do, derived from its name and signature.
use crate::interp::RegVal;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sub { S420, S422, S444 }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind { Planar, BiPlanar, Gray, Packed422, Ayuv, Rgb, Gbr, Rgb30, Plane }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Model { Yuv, YCgCo, Rdp, Identity, None }

#[derive(Clone, Debug)]
pub struct Fmt {
    pub kind: Kind,
    pub model: Model,
    pub sub: Sub,
    /// significant bits of an integer sample
    pub bits: u32,
    /// left shift of the sample inside its element (MSB aligned formats)
    pub shift: u32,
    pub be: bool,
    pub float: bool,
    pub alpha: bool,
    /// for packed pixel formats: channel order, e.g. "rgba", "yuyv", "uv"
    pub order: String,
    pub raw: bool,
}

impl Fmt {
    pub fn new(kind: Kind) -> Fmt { Fmt { kind, model: Model::None, sub: Sub::S444, bits: 8, shift: 0, be: false, float: false, alpha: false, order: String::new(), raw: false } }
    pub fn px_elems(&self, esz: u64) -> u64 { match self.kind { Kind::Rgb30 => 4 / esz, Kind::Rgb => self.order.len() as u64, Kind::Packed422 => 2, Kind::Ayuv => 4, Kind::Plane => self.order.len() as u64, _ => 1 } }
    /// channels of a 30-bit pixel, low bits first
    pub fn rgb30_channels(&self) -> [(char, u32); 4] {
        match self.order.as_str() { "ar" => [('r', 10), ('g', 10), ('b', 10), ('a', 2)], "ab" => [('b', 10), ('g', 10), ('r', 10), ('a', 2)], "ra" => [('a', 2), ('b', 10), ('g', 10), ('r', 10)], _ => [('a', 2), ('r', 10), ('g', 10), ('b', 10)] }
    }
    pub fn regval(&self, role: &str, esz: u64, nominal: bool, net: bool) -> RegVal {
        if self.raw { return RegVal::Opaque { bits: (esz * 8) as u32 }; }
        if self.float { return RegVal::F16 { lo: 0.0, hi: 1.0 }; }
        if self.kind == Kind::Rgb30 { return RegVal::Fields { fs: self.rgb30_channels().iter().enumerate().map(|(i, c)| (c.1, i as u8, 0.0, crate::val::p2(c.1) - 1.0)).collect(), bits: 32, be: net }; }
        if self.model == Model::Rdp && self.kind == Kind::Planar { return RegVal::Int { bits: 16, lo: -4096.0, hi: 4095.0, shift: 0, be: false }; }
        if nominal && self.kind == Kind::Ayuv { return RegVal::Cycle(self.order.chars().map(|c| match c { 'y' => (16.0, 235.0), 'a' => (0.0, 255.0), _ => (16.0, 240.0) }).collect()); }
        let (mut lo, mut hi) = (0.0, ((1u64 << self.bits) - 1) as f64);
        if nominal && self.model != Model::None && role != "a" {
            let k = crate::val::p2(self.bits - 8);
            lo = 16.0 * k;
            hi = if role == "y" || self.kind == Kind::Gbr { 235.0 * k } else { 240.0 * k };
        }
        RegVal::Int { bits: (esz * 8) as u32, lo, hi, shift: self.shift, be: self.be }
    }
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub name: String,
    pub src: Fmt,
    pub dst: Fmt,
    pub transposed: bool,
    pub has_bit_depth: bool,
    pub bit_depth: u32,
    pub sharp: bool,
    pub geometry: bool,
}

fn num(s: &str) -> Option<u32> { s.parse().ok() }

fn fmt(tok: &str, packed16: bool) -> Option<Fmt> {
    let mut t = tok.to_string();
    let mut alpha = false; let mut be = false; let mut float = false;
    for _ in 0..3 {
        if let Some(x) = t.strip_suffix("_with_alpha").or_else(|| t.strip_suffix("_alpha")) { t = x.into(); alpha = true; }
        if let Some(x) = t.strip_suffix("_be") { t = x.into(); be = true; }
        if let Some(x) = t.strip_suffix("_f16") { t = x.into(); float = true; }
    }
    let sub_of = |c: char| match c { '0' => Some(Sub::S420), '2' => Some(Sub::S422), '4' => Some(Sub::S444), _ => None };
    let mut f;
    if let Some(r) = t.strip_prefix("rdp_yuv444") { if !r.is_empty() { return None; } f = Fmt::new(Kind::Planar); f.model = Model::Rdp; }
    else if let Some(r) = t.strip_prefix("yuv_nv") {
        f = Fmt::new(Kind::BiPlanar); f.model = Model::Yuv;
        let (s, o) = match r { "12" => (Sub::S420, "uv"), "21" => (Sub::S420, "vu"), "16" => (Sub::S422, "uv"), "61" => (Sub::S422, "vu"), "24" => (Sub::S444, "uv"), "42" => (Sub::S444, "vu"), _ => return None };
        f.sub = s; f.order = o.into();
    }
    else if t == "yuv400" { f = Fmt::new(Kind::Gray); f.model = Model::Yuv; }
    else if let Some(r) = t.strip_prefix("sharp_yuv").or_else(|| t.strip_prefix("yuv")).filter(|r| r.len() == 3 && r.starts_with('4')) { f = Fmt::new(Kind::Planar); f.model = Model::Yuv; f.sub = match r { "420" => Sub::S420, "422" => Sub::S422, "444" => Sub::S444, _ => return None }; if packed16 { f.bits = 16; } }
    else if let Some(r) = t.strip_prefix("ycgco") { f = Fmt::new(Kind::Planar); f.model = Model::YCgCo; f.sub = match r { "420" => Sub::S420, "422" => Sub::S422, "444" => Sub::S444, _ => return None }; }
    else if let Some(r) = t.strip_prefix("icgc") { f = Fmt::new(Kind::Planar); f.model = Model::YCgCo; f.sub = sub_of(r.chars().next()?)?; f.bits = num(&r[1..])?; }
    else if t.len() == 4 && t.starts_with('i') && num(&t[1..]).is_some() { f = Fmt::new(Kind::Planar); f.model = Model::Yuv; f.sub = sub_of(t.as_bytes()[1] as char)?; f.bits = num(&t[2..])?; }
    else if t.len() == 4 && t.starts_with('p') && num(&t[1..]).is_some() { f = Fmt::new(Kind::BiPlanar); f.model = Model::Yuv; f.sub = sub_of(t.as_bytes()[1] as char)?; f.bits = num(&t[2..])?; f.shift = 16 - f.bits; f.order = "uv".into(); }
    else if t.len() == 4 && t.starts_with('y') && num(&t[1..]).is_some() { f = Fmt::new(Kind::Gray); f.model = Model::Yuv; f.bits = num(&t[2..])?; }
    else if matches!(t.as_str(), "yuyv422" | "uyvy422" | "vyuy422" | "yvyu422") { f = Fmt::new(Kind::Packed422); f.model = Model::Yuv; f.sub = Sub::S422; f.order = t[..4].into(); if packed16 { f.bits = 16; } }
    else if t == "ayuv" || t == "vyua" { f = Fmt::new(Kind::Ayuv); f.model = Model::Yuv; f.order = if t == "vyua" { "vuya".into() } else { t.clone() }; f.alpha = true; }
    else if t == "gbr" { f = Fmt::new(Kind::Gbr); f.model = Model::Identity; }
    else if let Some(r) = t.strip_prefix("gb") { f = Fmt::new(Kind::Gbr); f.model = Model::Identity; f.bits = num(r)?; }
    else if matches!(t.as_str(), "ar30" | "ra30" | "ab30" | "ba30") { f = Fmt::new(Kind::Rgb30); f.bits = 10; f.order = t[..2].into(); f.alpha = true; }
    else {
        f = Fmt::new(Kind::Rgb);
        let o = t.trim_end_matches(|c: char| c.is_ascii_digit());
        let n = &t[o.len()..];
        if !matches!(o, "rgb" | "bgr" | "rgba" | "bgra" | "argb" | "abgr") { return None; }
        f.order = o.into();
        if !n.is_empty() { f.bits = num(n)?; }
        f.alpha = o.contains('a');
        if packed16 { f.bits = 16; }
    }
    if alpha { f.alpha = true; }
    f.be = be; f.float = float;
    Some(f)
}

pub fn spec_of(name: &str) -> Option<Spec> {
    let mut s = Spec { name: name.into(), src: Fmt::new(Kind::Plane), dst: Fmt::new(Kind::Plane), transposed: false, has_bit_depth: false, bit_depth: 10, sharp: name.contains("sharp"), geometry: false };
    if name.starts_with("mirror_") || name.starts_with("rotate_") {
        let c = if name.contains("rgba") { "rgba" } else if name.contains("rgb") { "rgb" } else if name.contains("cbcr") { "uv" } else { "p" };
        for f in [&mut s.src, &mut s.dst] { f.order = c.into(); f.raw = true; f.alpha = c == "rgba"; f.bits = if name.ends_with("16") { 16 } else { 8 }; }
        s.geometry = true;
        s.transposed = name.starts_with("rotate_");
        return Some(s);
    }
    if let Some(r) = name.strip_prefix("convert_") {
        let (a, b) = r.split_once("_to_")?;
        let ch = |t: &str| if t.starts_with("rgba") { "rgba" } else if t.starts_with("rgb") { "rgb" } else { "p" };
        let c = if a.starts_with("plane") { "p" } else { ch(a) };
        for (f, t) in [(&mut s.src, a), (&mut s.dst, b)] {
            f.order = c.into();
            f.alpha = c == "rgba";
            f.float = t.ends_with("f16");
            f.bits = if t.ends_with("16") && !f.float { 10 } else { 8 };
        }
        // planes16 use an explicit bit depth
        s.has_bit_depth = (a.ends_with("16") && !s.src.float) || (b.ends_with("16") && !s.dst.float);
        s.bit_depth = 10;
        return Some(s);
    }
    let (n, p16) = match name.strip_suffix("_p16") { Some(n) => (n, true), None => (name, false) };
    let (a, b, rdp) = if let Some(r) = n.strip_prefix("rdp_") { let (a, b) = r.split_once("_to_")?; (if a == "yuv444" { "rdp_yuv444".to_string() } else { a.to_string() }, if b == "yuv444" { "rdp_yuv444".to_string() } else { b.to_string() }, true) } else { let (a, b) = n.split_once("_to_")?; (a.to_string(), b.to_string(), false) };
    let _ = rdp;
    s.src = fmt(&a, p16)?;
    s.dst = fmt(&b, p16)?;
    // 16-bit sources into f16 / 16-bit packed variants carry the depth of the other side
    if s.dst.float { s.dst.bits = s.src.bits; }
    // 30-bit destinations: the sample depth is 10
    if s.src.kind == Kind::Packed422 && p16 { s.has_bit_depth = true; s.bit_depth = 16; }
    Some(s)
}
