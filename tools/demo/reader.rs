//! A small reader of TsFiles, written from the format only.
#![allow(dead_code)]
use std::collections::BTreeMap;

pub type Point = (i64, u64);

#[derive(Debug, Clone, PartialEq)]
pub struct Stats {
    pub count: u32,
    pub ts_first: i64,
    pub ts_last: i64,
    pub raw: Vec<u8>, // min max first last sum
}

#[derive(Debug)]
pub struct Page {
    pub size: usize,
    pub stats: Option<Stats>,
    pub points: Vec<Point>,
}

#[derive(Debug)]
pub struct Chunk {
    pub device: String,
    pub offset: usize,
    pub marker: u8,
    pub measurement: String,
    pub dtype: u8,
    pub compression: u8,
    pub encoding: u8,
    pub pages: Vec<Page>,
}

#[derive(Debug)]
pub struct Series {
    pub device: String,
    pub measurement: String,
    pub dtype: u8,
    pub stats: Stats,
    pub chunks: Vec<(usize, Option<Stats>)>,
}

#[derive(Debug)]
pub struct TsFile {
    pub groups: usize,
    pub chunks: Vec<Chunk>,
    pub series: Vec<Series>,
    pub max_children: usize,
    pub bloom: Vec<u8>,
    pub bloom_size: u32,
    pub bloom_hashes: u32,
}

pub struct R<'a> {
    pub b: &'a [u8],
    pub p: usize,
}
impl<'a> R<'a> {
    pub fn take(&mut self, n: usize) -> &'a [u8] {
        assert!(self.p + n <= self.b.len(), "read past the end at {}", self.p);
        let s = &self.b[self.p..self.p + n];
        self.p += n;
        s
    }
    pub fn u8(&mut self) -> u8 {
        self.take(1)[0]
    }
    pub fn be(&mut self, n: usize) -> u64 {
        self.take(n).iter().fold(0, |a, b| a << 8 | *b as u64)
    }
    pub fn i64(&mut self) -> i64 {
        self.be(8) as i64
    }
    pub fn var(&mut self) -> u32 {
        let mut v = 0u32;
        let mut s = 0;
        loop {
            let b = self.u8();
            v |= ((b & 0x7f) as u32) << s;
            if b & 0x80 == 0 {
                return v;
            }
            s += 7;
        }
    }
    pub fn zig(&mut self) -> i32 {
        let u = self.var();
        ((u >> 1) as i32) ^ -((u & 1) as i32)
    }
    pub fn str(&mut self) -> String {
        let n = self.zig();
        String::from_utf8(self.take(n as usize).to_vec()).unwrap()
    }
    pub fn stats(&mut self, dtype: u8) -> Stats {
        let n = match dtype {
            1 => 4 * 4 + 8,
            2 => 4 * 8 + 8,
            3 => 4 * 4 + 8,
            _ => panic!("data type {}", dtype),
        };
        Stats { count: self.var(), ts_first: self.i64(), ts_last: self.i64(), raw: self.take(n).to_vec() }
    }
}

fn ts2diff(r: &mut R, bytes: usize, limit: Option<usize>) -> Vec<u64> {
    let mut out = vec![];
    while r.p < r.b.len() && limit.map_or(true, |l| out.len() < l) {
        let n = r.be(4) as usize;
        let w = r.be(4) as usize;
        let sx = |v: u64| if bytes == 4 { v as u32 as i32 as i64 as u64 } else { v };
        let min = sx(r.be(bytes));
        let mut prev = sx(r.be(bytes));
        out.push(prev);
        let body = r.take((n * w + 7) / 8);
        for i in 0..n {
            let mut d = 0u64;
            for k in i * w..i * w + w {
                d = d << 1 | (body[k / 8] >> (7 - k % 8) & 1) as u64;
            }
            prev = sx(prev.wrapping_add(min).wrapping_add(d));
            out.push(prev);
        }
    }
    out
}

fn page(data: &[u8], dtype: u8, encoding: u8) -> Vec<Point> {
    let mut r = R { b: data, p: 0 };
    let n = r.var() as usize;
    let mut t = R { b: r.take(n), p: 0 };
    let times = ts2diff(&mut t, 8, None);
    let values = match (encoding, dtype) {
        (4, 1) => ts2diff(&mut r, 4, None),
        (4, 2) => ts2diff(&mut r, 8, None),
        (0, 1) => times.iter().map(|_| r.zig() as i64 as u64).collect(),
        (0, 2) => times.iter().map(|_| r.be(8)).collect(),
        (0, 3) => times.iter().map(|_| r.be(4)).collect(),
        _ => panic!("encoding {} of type {}", encoding, dtype),
    };
    assert_eq!(r.p, data.len(), "page has bytes left");
    assert_eq!(times.len(), values.len(), "as many times as values");
    times.into_iter().map(|t| t as i64).zip(values).collect()
}

fn body(r: &mut R, compression: u8, dtype: u8, encoding: u8, multi: bool) -> Page {
    let uncompressed = r.var() as usize;
    let compressed = r.var() as usize;
    let stats = if multi { Some(r.stats(dtype)) } else { None };
    let raw = r.take(compressed);
    let data = match compression {
        0 => raw.to_vec(),
        1 => snap::raw::Decoder::new().decompress_vec(raw).expect("snappy"),
        _ => panic!("compression"),
    };
    assert_eq!(data.len(), uncompressed, "uncompressed size");
    Page { size: uncompressed, stats, points: page(&data, dtype, encoding) }
}

/// The chunks up to the separator (its offset is returned too), or up to the last whole chunk.
pub fn scan(b: &[u8]) -> (Vec<Chunk>, usize, usize) {
    assert_eq!(&b[..7], b"TsFile\x03");
    let mut r = R { b, p: 7 };
    let mut chunks = vec![];
    let mut groups = 0;
    let mut device = String::new();
    loop {
        let offset = r.p;
        match r.u8() {
            0 => {
                groups += 1;
                device = r.str()
            }
            2 => return (chunks, groups, offset),
            m @ (1 | 5) => {
                let measurement = r.str();
                let size = r.var() as usize;
                let (dtype, compression, encoding) = (r.u8(), r.u8(), r.u8());
                let end = r.p + size;
                let mut pages = vec![];
                if m == 5 {
                    pages.push(body(&mut r, compression, dtype, encoding, false));
                } else {
                    while r.p < end {
                        pages.push(body(&mut r, compression, dtype, encoding, true));
                    }
                    assert!(pages.len() > 1, "several pages");
                }
                assert_eq!(r.p, end, "chunk size");
                chunks.push(Chunk { device: device.clone(), offset, marker: m, measurement, dtype, compression, encoding, pages });
            }
            m => panic!("marker {} at {}", m, offset),
        }
    }
}

fn node(b: &[u8], from: usize, to: Option<usize>, most: &mut usize) -> (Vec<(String, usize)>, usize, u8, usize) {
    let mut r = R { b, p: from };
    let n = r.var() as usize;
    *most = n.max(*most);
    let kids: Vec<(String, usize)> = (0..n).map(|_| (r.str(), r.be(8) as usize)).collect();
    let end = r.be(8) as usize;
    let kind = r.u8();
    if let Some(t) = to {
        assert_eq!(r.p, t, "end of an index node");
    }
    assert!(kids.windows(2).all(|w| w[0].0 < w[1].0), "entries are sorted");
    (kids, end, kind, r.p)
}

fn walk(b: &[u8], device: &str, n: (Vec<(String, usize)>, usize, u8, usize), out: &mut Vec<Series>, most: &mut usize) {
    let (kids, end, kind, _) = n;
    for (i, (name, from)) in kids.iter().enumerate() {
        let to = kids.get(i + 1).map_or(end, |k| k.1);
        match kind {
            0 => walk(b, "", node(b, *from, Some(to), most), out, most),
            1 => walk(b, name, node(b, *from, Some(to), most), out, most),
            2 => {
                let k = node(b, *from, Some(to), most);
                assert_eq!(&k.0[0].0, name, "first name");
                walk(b, device, k, out, most)
            }
            3 => {
                let mut r = R { b, p: *from };
                let mut first = true;
                while r.p < to {
                    let many = r.u8() == 1;
                    let measurement = r.str();
                    if first {
                        assert_eq!(&measurement, name, "first name of a leaf");
                        first = false;
                    }
                    let dtype = r.u8();
                    let size = r.var() as usize;
                    let stats = r.stats(dtype);
                    let stop = r.p + size;
                    let mut chunks = vec![];
                    while r.p < stop {
                        let o = r.be(8) as usize;
                        chunks.push((o, if many { Some(r.stats(dtype)) } else { None }));
                    }
                    assert_eq!(r.p, stop);
                    out.push(Series { device: device.to_string(), measurement, dtype, stats, chunks });
                }
                assert_eq!(r.p, to, "leaf");
            }
            k => panic!("kind {}", k),
        }
    }
}

pub fn read(b: &[u8]) -> TsFile {
    let (chunks, groups, separator) = scan(b);
    let n = b.len();
    assert_eq!(&b[n - 6..], b"TsFile");
    let size = R { b, p: n - 10 }.be(4) as usize;
    let footer = n - 10 - size;
    let mut most = 0;
    let root = node(b, footer, None, &mut most);
    let mut r = R { b, p: root.3 };
    assert_eq!(r.be(8) as usize, separator, "metadata offset");
    let len = r.var() as usize;
    let bloom = r.take(len).to_vec();
    let (bloom_size, bloom_hashes) = (r.var(), r.var());
    assert_eq!(r.p, n - 10, "footer");
    let mut series = vec![];
    walk(b, "", root, &mut series, &mut most);
    TsFile { groups, chunks, series, max_children: most, bloom, bloom_size, bloom_hashes }
}

/// All points per series.
pub fn points(f: &TsFile) -> BTreeMap<(String, String), Vec<Point>> {
    let mut m: BTreeMap<(String, String), Vec<Point>> = BTreeMap::new();
    for c in &f.chunks {
        let v = m.entry((c.device.clone(), c.measurement.clone())).or_default();
        for p in &c.pages {
            v.extend(p.points.iter());
        }
    }
    m
}

/// Index and scan agree.
pub fn check_index(f: &TsFile) {
    let mut m: BTreeMap<(String, String), Vec<usize>> = BTreeMap::new();
    for c in &f.chunks {
        m.entry((c.device.clone(), c.measurement.clone())).or_default().push(c.offset);
    }
    let mut seen = BTreeMap::new();
    for s in &f.series {
        let o: Vec<usize> = s.chunks.iter().map(|c| c.0).collect();
        assert!(seen.insert((s.device.clone(), s.measurement.clone()), o).is_none(), "indexed twice");
    }
    assert_eq!(m, seen, "index and chunks");
}
