"""Planted changes of the writer: id, property, edits (file, old, new), what they need, and a demonstration."""
W = 'tsfile-writer/src/writer/'
PRE = r'''
mod reader;
use reader::*;
use ::tsfile_writer as ts;
use ts::writer::compression::CompressionType::*;
use ts::writer::encoding::TSEncoding::*;
use ts::writer::schema::*;
use ts::writer::tsfile_writer::*;
use ts::writer::IoTDBValue::*;
use ts::writer::TSDataType::*;
use ts::writer::{IoTDBValue, Schema, TSDataType};
#[allow(unused)]
fn rnd(s: &mut u64) -> u64 { *s ^= *s << 13; *s ^= *s >> 7; *s ^= *s << 17; *s }
'''
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo, flags='', features=False):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=PRE + demo,
                      flags=flags, features=features))


seed('c01-lone-tail', 'C01',
     [(W + 'chunk_writer.rs', 'if pw.point_number > 0 {', 'if pw.point_number > 1 || (pw.point_number == 1 && self.num_pages == 0) {')],
     'a series whose last page holds exactly one point, after at least one page closed by size',
     'that point is missing from the file although its write and the close succeeded',
     r'''
fn main() {
    for n in 7900..8150i64 {
        let mut w = TsFileWriter::new("a.tsfile", Schema::simple("d", "s", INT64, PLAIN, UNCOMPRESSED), Default::default()).unwrap();
        for t in 0..n { w.write("d", "s", t, LONG(t)).unwrap(); }
        w.close().unwrap();
        let p = points(&read(&std::fs::read("a.tsfile").unwrap()));
        assert_eq!(p[&("d".to_string(), "s".to_string())], (0..n).map(|t| (t, t as u64)).collect::<Vec<_>>());
    }
}''')

seed('c01-block-start', 'C08',
     [(W + 'encoding/time_encoder.rs', 'if self.first_value == None {\n                    return;',
       'if self.first_value == None || (self.values.is_empty() && !self.buffer.is_empty()) {\n                    return;')],
     'a page whose number of points leaves exactly one for a last difference block (129 k + 1)',
     'the last timestamp of such a page is not encoded',
     r'''
fn main() {
    for n in [1i64, 2, 129, 130, 131, 258, 259] {
        let mut w = TsFileWriter::new("a.tsfile", Schema::simple("d", "s", INT64, TS2DIFF, SNAPPY), Default::default()).unwrap();
        for t in 0..n { w.write("d", "s", t, LONG(t * 7)).unwrap(); }
        w.close().unwrap();
        let p = points(&read(&std::fs::read("a.tsfile").unwrap()));
        assert_eq!(p[&("d".to_string(), "s".to_string())], (0..n).map(|t| (t, t as u64 * 7)).collect::<Vec<_>>());
    }
}''')

seed('c02-order-second-flush', 'C02',
     [(W + 'tsfile_writer.rs', '.insert(device_id, group_writer.get_last_time_map());',
       '.entry(device_id)\n                    .or_insert_with(|| group_writer.get_last_time_map());')],
     'two automatic flushes, then a point between the last time of the first and that of the second',
     'a point older than one already accepted is accepted',
     r'''
fn main() {
    let mut w = TsFileWriter::new("a.tsfile", Schema::simple("d", "s", INT64, PLAIN, UNCOMPRESSED), Default::default()).unwrap();
    let size = || std::fs::metadata("a.tsfile").unwrap().len();
    let (mut t, mut s, mut flushes, mut before) = (0i64, 88172645463325252u64, vec![], size());
    while flushes.len() < 2 {
        t += 1 + (rnd(&mut s) % 100_000_000) as i64;
        w.write("d", "s", t, LONG(t)).unwrap();
        let now = size();
        if now != before { flushes.push(t); before = now; }
    }
    assert!(w.write("d", "s", flushes[0] + 1, LONG(0)).is_err(), "older than the last one");
    assert!(w.write("d", "s", t, LONG(0)).is_err(), "same as the last one");
    w.write("d", "s", t + 1, LONG(0)).unwrap();
}''')

seed('c02-huge-first', 'C02',
     [(W + 'group_writer.rs', 'if timestamp <= *self.last_time_map.get(measurement_id).unwrap() {',
       'if (timestamp as i32) <= *self.last_time_map.get(measurement_id).unwrap() as i32\n            && timestamp <= *self.last_time_map.get(measurement_id).unwrap()\n        {')],
     'timestamps beyond 32 bits whose low halves order differently than they do',
     'a point older than one already accepted is accepted',
     r'''
fn main() {
    let mut w = TsFileWriter::new("a.tsfile", Schema::simple("d", "s", INT64, PLAIN, UNCOMPRESSED), Default::default()).unwrap();
    w.write("d", "s", 0x2_0000_0001, LONG(1)).unwrap();
    assert!(w.write("d", "s", 0x1_0000_0005, LONG(2)).is_err());
    w.write("d", "s", 0x3_0000_0000, LONG(3)).unwrap();
    w.close().unwrap();
    let p = points(&read(&std::fs::read("a.tsfile").unwrap()));
    assert_eq!(p[&("d".to_string(), "s".to_string())], vec![(0x2_0000_0001, 1), (0x3_0000_0000, 3)]);
}''')

seed('c03-refused-moves-time', 'C03',
     [(W + 'group_writer.rs', '        self.last_time_map.insert(measurement_id, timestamp);\n        Ok(record_count)', '        Ok(record_count)'),
      (W + 'group_writer.rs', '            return Err(TsFileError::OutOfOrderData);\n        }\n        Ok(())',
       '            return Err(TsFileError::OutOfOrderData);\n        }\n        self.last_time_map.insert(measurement_id, timestamp);\n        Ok(())')],
     'a write refused for its type, followed by an earlier one that is in order',
     'the refused write advances the last time of the series, later points are refused',
     r'''
fn main() {
    let mut w = TsFileWriter::new("a.tsfile", Schema::simple("d", "s", INT64, PLAIN, UNCOMPRESSED), Default::default()).unwrap();
    w.write("d", "s", 1, LONG(1)).unwrap();
    assert!(w.write("d", "s", 10, INT(1)).is_err());
    w.write("d", "s", 5, LONG(5)).unwrap();
    w.close().unwrap();
    let p = points(&read(&std::fs::read("a.tsfile").unwrap()));
    assert_eq!(p[&("d".to_string(), "s".to_string())], vec![(1, 1), (5, 5)]);
}''')

seed('c03-encoding-fallback', 'C03',
     [(W + 'encoding/mod.rs', '(_, TSEncoding::TS2DIFF) => Err(TsFileError::Encoding),',
       '(_, TSEncoding::TS2DIFF) => Ok(Box::new(PlainEncoder::new(data_type))),')],
     'a FLOAT series declared with TS_2DIFF',
     'points of an encoding that is not available are accepted and stored in another one than declared',
     r'''
fn main() {
    let mut w = TsFileWriter::new("a.tsfile", Schema::simple("d", "s", FLOAT, TS2DIFF, UNCOMPRESSED), Default::default()).unwrap();
    assert!(w.write("d", "s", 1, FLOAT(1.0)).is_err());
}'''.replace('FLOAT(1.0)', 'IoTDBValue::FLOAT(1.0)').replace('"s", FLOAT,', '"s", TSDataType::FLOAT,'))

seed('c04-two-page-marker', 'C04',
     [(W + 'chunk_writer.rs', '        let marker = if self.num_pages <= 1 {\n            ONLY_ONE_PAGE_CHUNK_HEADER\n        } else {\n            CHUNK_HEADER\n        };\n        let marker = marker | self.mask;\n        file_writer',
       '        let marker = if self.num_pages <= 2 {\n            ONLY_ONE_PAGE_CHUNK_HEADER\n        } else {\n            CHUNK_HEADER\n        };\n        let marker = marker | self.mask;\n        file_writer')],
     'a chunk of exactly two pages',
     'the chunk is marked as having a single page, so its pages are misread',
     r'''
fn main() {
    for n in [10i64, 12000, 30000] {
        let mut w = TsFileWriter::new("a.tsfile", Schema::simple("d", "s", INT64, PLAIN, UNCOMPRESSED), Default::default()).unwrap();
        for t in 0..n { w.write("d", "s", t, LONG(t)).unwrap(); }
        w.close().unwrap();
        let f = read(&std::fs::read("a.tsfile").unwrap());
        assert_eq!(points(&f)[&("d".to_string(), "s".to_string())].len(), n as usize);
    }
}''')

seed('c04-name-length', 'C04',
     [(W + 'mod.rs', 'let len = s.len() as i32;', 'let len = s.chars().count() as i32;')],
     'a device or measurement name with a character outside ASCII',
     'the length before the name is too small, a scan gets lost',
     r'''
fn main() {
    let mut w = TsFileWriter::new("a.tsfile", Schema::simple("grün", "höhe", INT64, PLAIN, UNCOMPRESSED), Default::default()).unwrap();
    w.write("grün", "höhe", 1, LONG(1)).unwrap();
    w.close().expect("close");
    let p = points(&read(&std::fs::read("a.tsfile").unwrap()));
    assert_eq!(p[&("grün".to_string(), "höhe".to_string())], vec![(1, 1)]);
}''')

seed('c05-node-name', 'C05',
     [(W + 'mod.rs', 'let name = match metadata_index_node.children.get(0) {', 'let name = match metadata_index_node.children.last() {')],
     'more than 256 devices, so that the index has an inner node',
     'inner entries carry the last instead of the first name below them, searches descend into the wrong node',
     r'''
fn main() {
    let names: Vec<String> = (0..600).map(|i| format!("d{:04}", i)).collect();
    let mut b = TsFileSchemaBuilder::new();
    for n in &names { b.add(n, DeviceBuilder::new().add("s", INT64, PLAIN, UNCOMPRESSED).build()); }
    let mut w = TsFileWriter::new("a.tsfile", b.build(), Default::default()).unwrap();
    for n in &names { w.write(n, "s", 1, LONG(1)).unwrap(); }
    w.close().unwrap();
    let bytes = std::fs::read("a.tsfile").unwrap();
    let f = read(&bytes);
    check_index(&f);
    // what a reader does with the root: the last entry not after the name
    let size = R { b: &bytes, p: bytes.len() - 10 }.be(4) as usize;
    let mut r = R { b: &bytes, p: bytes.len() - 10 - size };
    let n = r.var();
    let kids: Vec<(String, usize)> = (0..n).map(|_| (r.str(), r.be(8) as usize)).collect();
    for (name, offset) in kids {
        let mut r = R { b: &bytes, p: offset };
        assert!(r.var() > 0);
        assert_eq!(name, r.str());
    }
}''')

seed('c05-last-leaf', 'C05',
     [(W + 'mod.rs', 'if i % config.max_degree_of_index_node == 0 {', 'if i % config.max_degree_of_index_node == 0 && (i == 0 || i + 1 < list_metadata.len()) {'),
      (W + 'mod.rs', 'current_index_node.end_offset = file.get_position() as usize;\n            measurement_metadata_index_queue.push',
       'current_index_node.end_offset = file.get_position() as usize;\n            measurement_metadata_index_queue.push')],
     'a device with 256 k + 1 measurements',
     'the last measurement has no index entry of its own, the block before it holds 257',
     r'''
fn main() {
    for n in [1usize, 256, 257, 258, 513] {
        let names: Vec<String> = (0..n).map(|i| format!("s{:04}", i)).collect();
        let mut b = DeviceBuilder::new();
        for n in &names { b.add(n, INT64, PLAIN, UNCOMPRESSED); }
        let g = b.build();
        let mut w = TsFileWriter::new("a.tsfile", TsFileSchemaBuilder::new().add("d", g).build(), Default::default()).unwrap();
        for n in &names { w.write("d", n, 1, LONG(1)).unwrap(); }
        w.close().unwrap();
        let f = read(&std::fs::read("a.tsfile").unwrap());
        check_index(&f);
        assert!(f.max_children == (n + 255) / 256, "{} entries for {}", f.max_children, n);
    }
}''') if False else None

seed('c05-only-first-chunk', 'C05',
     [(W + 'tsfile_io_writer.rs', 'let serialize_statistic = metadata.len() > 1;', 'let serialize_statistic = metadata.len() > 2;')],
     'a series with exactly two chunks, i.e. one automatic flush',
     'its index entry is marked as having one chunk only and lacks the chunks\' statistics',
     r'''
fn main() {
    let mut w = TsFileWriter::new("a.tsfile", Schema::simple("d", "s", INT64, PLAIN, UNCOMPRESSED), Default::default()).unwrap();
    let size = || std::fs::metadata("a.tsfile").unwrap().len();
    let (mut t, mut s, before) = (0i64, 88172645463325252u64, size());
    while size() == before {
        t += 1 + (rnd(&mut s) % 100_000_000) as i64;
        w.write("d", "s", t, LONG(t)).unwrap();
    }
    w.write("d", "s", t + 1, LONG(t)).unwrap();
    w.close().unwrap();
    let f = read(&std::fs::read("a.tsfile").unwrap());
    check_index(&f);
    assert_eq!(f.series[0].chunks.len(), 2);
    assert!(f.series[0].chunks.iter().all(|c| c.1.is_some()));
}''')

seed('c06-third-page-statistics', 'C06',
     [(W + 'chunk_writer.rs',
       '                // Write page content\n                page_writer.statistics.serialize(&mut self.page_buffer);\n\n                let pos_before_flush',
       '                // Write page content\n                let mut statistics = self.statistics.clone();\n                statistics.merge(&page_writer.statistics);\n                statistics.serialize(&mut self.page_buffer);\n\n                let pos_before_flush')],
     'a chunk of three or more pages',
     'the statistics of its third and later pages cover the pages before them too',
     r'''
fn main() {
    let mut w = TsFileWriter::new("a.tsfile", Schema::simple("d", "s", INT64, PLAIN, UNCOMPRESSED), Default::default()).unwrap();
    for t in 0..40000 { w.write("d", "s", t, LONG(t)).unwrap(); }
    w.close().unwrap();
    let f = read(&std::fs::read("a.tsfile").unwrap());
    for p in &f.chunks[0].pages {
        let s = p.stats.as_ref().unwrap();
        assert_eq!((s.count as usize, s.ts_first, s.ts_last), (p.points.len(), p.points[0].0, p.points.last().unwrap().0));
    }
}''')

seed('c06-merge-min', 'C06',
     [(W + 'statistics.rs', '                if statistics.min_value < self.min_value {\n                    self.min_value = statistics.min_value;',
       '                else if self.count == 0 || statistics.ts_first < self.ts_first {\n                    self.min_value = statistics.min_value;')],
     'a series of several pages or chunks in which a later one holds the smallest value',
     'the minimum in the chunk and series statistics is that of the first page',
     r'''
fn main() {
    let mut w = TsFileWriter::new("a.tsfile", Schema::simple("d", "s", INT64, PLAIN, UNCOMPRESSED), Default::default()).unwrap();
    for t in 0..40000 { w.write("d", "s", t, LONG(-t)).unwrap(); }
    w.close().unwrap();
    let f = read(&std::fs::read("a.tsfile").unwrap());
    let min = i64::from_be_bytes(f.series[0].stats.raw[..8].try_into().unwrap());
    assert_eq!(min, -39999);
}''')
SEEDS[-1]['edits'] = [(W + 'statistics.rs',
    '                if statistics.min_value < self.min_value {\n                    self.min_value = statistics.min_value;\n                }\n',
    '                if self.count == 0 || (statistics.min_value < self.min_value && statistics.max_value > self.max_value) {\n                    self.min_value = statistics.min_value;\n                }\n')]
SEEDS[-1]['demo'] = SEEDS[-1]['demo']

seed('c06-sum-of-negatives', 'C06',
     [(W + 'statistics.rs', '                self.sum_value += value as $sum;', '                self.sum_value += (value as i64) as $sum;')],
     'FLOAT values with a fractional part, infinities or beyond the range of 64 bit integers',
     'the sum of a FLOAT series adds the truncated values',
     r'''
fn main() {
    let mut w = TsFileWriter::new("a.tsfile", Schema::simple("d", "s", TSDataType::FLOAT, PLAIN, UNCOMPRESSED), Default::default()).unwrap();
    w.write("d", "s", 1, IoTDBValue::FLOAT(0.5)).unwrap();
    w.write("d", "s", 2, IoTDBValue::FLOAT(1e30)).unwrap();
    w.close().unwrap();
    let f = read(&std::fs::read("a.tsfile").unwrap());
    let sum = f64::from_be_bytes(f.series[0].stats.raw[16..24].try_into().unwrap());
    assert_eq!(sum, 0.5f64 + 1e30f32 as f64);
}''')

BLOOM = r'''
fn murmur(key: &[u8], seed: u64) -> u64 {
    let (c1, c2) = (0x87c37b91114253d5u64, 0x4cf5ad432745937fu64);
    let (mut h1, mut h2) = (seed, seed);
    let le = |b: &[u8]| b.iter().rev().fold(0u64, |a, x| a << 8 | *x as u64);
    let m1 = |k: u64| k.wrapping_mul(c1).rotate_left(31).wrapping_mul(c2);
    let m2 = |k: u64| k.wrapping_mul(c2).rotate_left(33).wrapping_mul(c1);
    let fmix = |mut k: u64| { k ^= k >> 33; k = k.wrapping_mul(0xff51afd7ed558ccd); k ^= k >> 33; k = k.wrapping_mul(0xc4ceb9fe1a85ec53); k ^ k >> 33 };
    let whole = key.len() / 16 * 16;
    for b in key[..whole].chunks(16) {
        h1 ^= m1(le(&b[..8]));
        h1 = h1.rotate_left(27).wrapping_add(h2).wrapping_mul(5).wrapping_add(0x52dce729);
        h2 ^= m2(le(&b[8..]));
        h2 = h2.rotate_left(31).wrapping_add(h1).wrapping_mul(5).wrapping_add(0x38495ab5);
    }
    let t = &key[whole..];
    if t.len() > 8 { h2 ^= m2(le(&t[8..])); }
    if !t.is_empty() { h1 ^= m1(le(&t[..t.len().min(8)])); }
    h1 ^= key.len() as u64;
    h2 ^= key.len() as u64;
    h1 = h1.wrapping_add(h2);
    h2 = h2.wrapping_add(h1);
    h1 = fmix(h1);
    h2 = fmix(h2);
    h1 = h1.wrapping_add(h2);
    h2 = h2.wrapping_add(h1);
    h1.wrapping_add(h2)
}
fn hidden(f: &TsFile, path: &str) -> bool {
    [5u64, 7, 11, 19, 31, 37, 43, 59][..f.bloom_hashes as usize].iter().any(|s| {
        let bit = ((murmur(path.as_bytes(), *s) as i32).unsigned_abs() % f.bloom_size) as usize;
        f.bloom.get(bit / 8).map_or(true, |b| b >> (bit % 8) & 1 == 0)
    })
}
'''
seed('c07-tail', 'C07',
     [(W + 'murmur128.rs', 'k2 ^= (key[offset + 12] as i64) << 32;', 'k2 ^= (key[offset + 12] as i64) << 24;')],
     'a path whose length modulo 16 is 13 or more',
     'the bits of such paths are set at other places than a reader looks',
     BLOOM + r'''
fn main() {
    for n in 1..40 {
        let s = "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz"[..n].to_string();
        let mut w = TsFileWriter::new("a.tsfile", Schema::simple("d", &s, INT64, PLAIN, UNCOMPRESSED), Default::default()).unwrap();
        w.write("d", &s, 1, LONG(1)).unwrap();
        w.close().unwrap();
        assert!(!hidden(&read(&std::fs::read("a.tsfile").unwrap()), &format!("d.{}", s)), "{}", s);
    }
}''')

seed('c07-size', 'C07',
     [(W + 'mod.rs', 'size.max(config.minimal_size),', 'size.clamp(config.minimal_size, config.minimal_size * 8),')],
     'more than about 330 series in a file',
     'the filter is smaller than its error rate needs',
     BLOOM + r'''
fn main() {
    for n in [10usize, 300, 400, 1000] {
        let names: Vec<String> = (0..n).map(|i| format!("s{:04}", i)).collect();
        let mut b = DeviceBuilder::new();
        for n in &names { b.add(n, INT64, PLAIN, UNCOMPRESSED); }
        let g = b.build();
        let mut w = TsFileWriter::new("a.tsfile", TsFileSchemaBuilder::new().add("d", g).build(), Default::default()).unwrap();
        for n in &names { w.write("d", n, 1, LONG(1)).unwrap(); }
        w.close().unwrap();
        let f = read(&std::fs::read("a.tsfile").unwrap());
        assert!(names.iter().all(|s| !hidden(&f, &format!("d.{}", s))));
        assert!(f.bloom_size as f64 >= n as f64 * 6.2, "{} bits for {}", f.bloom_size, n);
    }
}''')

seed('c08-width', 'C08',
     [(W + 'encoding/time_encoder.rs', '$num_bits - v.leading_zeros()', '($num_bits - v.leading_zeros()).min($num_bits - 1)')],
     'differences within one block that are more than half of the type\'s range apart',
     'the top bit of such differences is lost, the decoded values differ',
     r'''
fn main() {
    let v = [0i64, i64::MAX, i64::MIN, 5, -5, i64::MIN, i64::MAX];
    let mut w = TsFileWriter::new("a.tsfile", Schema::simple("d", "s", INT64, TS2DIFF, UNCOMPRESSED), Default::default()).unwrap();
    for (t, x) in v.iter().enumerate() { w.write("d", "s", t as i64, LONG(*x)).unwrap(); }
    w.close().unwrap();
    let p = points(&read(&std::fs::read("a.tsfile").unwrap()));
    assert_eq!(p[&("d".to_string(), "s".to_string())], v.iter().enumerate().map(|(t, x)| (t as i64, *x as u64)).collect::<Vec<_>>());
}''')

seed('c08-incompressible', 'C08',
     [(W + 'chunk_writer.rs', '                            let mut reader = &out.as_mut_slice()[..size];\n                            io::copy(&mut reader, &mut compressed_buffer);\n                            size as u32',
       '                            let mut reader = &out.as_mut_slice()[..size];\n                            if size + size / 50 > page_writer.buffer.len() && size > 4096 {\n                                reader = &page_writer.buffer;\n                            }\n                            let size = reader.len();\n                            io::copy(&mut reader, &mut compressed_buffer);\n                            size as u32')],
     'a SNAPPY page of more than 4 KiB that compression makes hardly smaller',
     'such a page is stored uncompressed although the chunk says SNAPPY',
     r'''
fn main() {
    let mut w = TsFileWriter::new("a.tsfile", Schema::simple("d", "s", INT64, PLAIN, SNAPPY), Default::default()).unwrap();
    let (mut t, mut s) = (0i64, 88172645463325252u64);
    for _ in 0..2000 {
        t += 1 + (rnd(&mut s) >> 20) as i64;
        w.write("d", "s", t, LONG(rnd(&mut s) as i64)).unwrap();
    }
    w.close().unwrap();
    let p = points(&read(&std::fs::read("a.tsfile").unwrap()));
    assert_eq!(p[&("d".to_string(), "s".to_string())].len(), 2000);
}''')

seed('c08-signed-zero', 'C08',
     [(W + 'encoding/plain.rs', '            IoTDBValue::FLOAT(v) => {\n                self.buffer.write_all(&v.to_be_bytes())?;', '            IoTDBValue::FLOAT(v) => {\n                self.buffer.write_all(&(*v + 0.0).to_be_bytes())?;')],
     'a FLOAT value of minus zero (or a signalling not-a-number)',
     'the sign of the zero is lost',
     r'''
fn main() {
    let mut w = TsFileWriter::new("a.tsfile", Schema::simple("d", "s", TSDataType::FLOAT, PLAIN, SNAPPY), Default::default()).unwrap();
    let v = [0.0f32, -0.0, 1.5, f32::NEG_INFINITY];
    for (t, x) in v.iter().enumerate() { w.write("d", "s", t as i64, IoTDBValue::FLOAT(*x)).unwrap(); }
    w.close().unwrap();
    let p = points(&read(&std::fs::read("a.tsfile").unwrap()));
    assert_eq!(p[&("d".to_string(), "s".to_string())], v.iter().enumerate().map(|(t, x)| (t as i64, x.to_bits() as u64)).collect::<Vec<_>>());
}''')

seed('c09-largest-group', 'C09',
     [(W + 'tsfile_writer.rs', '            mem_total_size += group.update_max_group_mem_size();', '            mem_total_size = mem_total_size.max(group.update_max_group_mem_size());')],
     'several devices that buffer much data, none of them the whole limit',
     'the writer buffers up to the limit per device instead of in total',
     r'''
fn main() {
    let d = || DeviceBuilder::new().add("s", INT64, PLAIN, UNCOMPRESSED).build();
    let schema = TsFileSchemaBuilder::new().add("a", d()).add("b", d()).add("c", d()).build();
    let mut w = TsFileWriter::new("a.tsfile", schema, Default::default()).unwrap();
    let (mut t, mut s) = (0i64, 88172645463325252u64);
    let size = || std::fs::metadata("a.tsfile").unwrap().len();
    // at least 9 bytes for each point, so 3 * 6.5 million of them are more than 160 MiB
    for _ in 0..6_500_000 {
        t += 1 + (rnd(&mut s) % 1_000_000) as i64;
        for g in ["a", "b", "c"] { w.write(g, "s", t, LONG(t)).unwrap(); }
    }
    assert!(size() > 100, "nothing was flushed");
}''')

seed('c09-time-not-counted', 'C09',
     [(W + 'chunk_writer.rs', 'time_encoder_size + value_encoder_size + time_encoder_max_size + value_encoder_max_size;', 'value_encoder_size + time_encoder_max_size + value_encoder_max_size;')],
     'timestamps that need more bytes than the values do',
     'pages grow to many times the page limit, as encoded timestamps do not count',
     r'''
fn main() {
    let mut w = TsFileWriter::new("a.tsfile", Schema::simple("d", "s", INT64, TS2DIFF, UNCOMPRESSED), Default::default()).unwrap();
    let (mut t, mut s) = (0i64, 88172645463325252u64);
    for _ in 0..100_000 {
        t += 1 + (rnd(&mut s) % (1 << 45)) as i64;
        w.write("d", "s", t, LONG(7)).unwrap();
    }
    w.close().unwrap();
    let f = read(&std::fs::read("a.tsfile").unwrap());
    assert!(f.chunks[0].pages.iter().all(|p| p.size <= 2 * 65536), "{:?}", f.chunks[0].pages.iter().map(|p| p.size).collect::<Vec<_>>());
}''')

seed('c10-duplicate-in-batch', 'C10',
     [(W + 'group_writer.rs', '        for dp in values {', '        let mut last = None;\n        for dp in values {\n            if last.replace(dp.measurement_id) == Some(dp.measurement_id) {\n                continue;\n            }')],
     'a batch that names one measurement twice in a row',
     'the second point is silently dropped instead of refused, and those after it are kept',
     r'''
fn main() {
    let d = DeviceBuilder::new().add("s", INT64, PLAIN, UNCOMPRESSED).add("u", INT64, PLAIN, UNCOMPRESSED).build();
    let schema = TsFileSchemaBuilder::new().add("d", d).build();
    let mut w = TsFileWriter::new("a.tsfile", schema, Default::default()).unwrap();
    assert!(w.write_many("d", 1, vec![DataPoint::new("s", LONG(1)), DataPoint::new("s", LONG(2)), DataPoint::new("u", LONG(3))]).is_err());
    w.close().unwrap();
    let p = points(&read(&std::fs::read("a.tsfile").unwrap()));
    assert_eq!(p.len(), 1);
}''')

seed('c11-late-tail', 'C11',
     [(W + 'mod.rs', 'pub struct WriteWrapper<T: Write> {\n    position: u64,\n    writer: T,\n}',
       'pub struct WriteWrapper<T: Write> {\n    position: u64,\n    pending: Vec<u8>,\n    writer: T,\n}\n\nimpl<T: Write> Drop for WriteWrapper<T> {\n    fn drop(&mut self) {\n        let _ = self.writer.write_all(&self.pending);\n        let _ = self.writer.flush();\n    }\n}'),
      (W + 'mod.rs', '        match self.writer.write(buf) {\n            Ok(size) => {\n                self.position += size as u64;\n                Ok(size)\n            }\n            Err(e) => Err(e),\n        }',
       '        if self.pending.len() + buf.len() > 64 {\n            self.writer.write_all(&self.pending)?;\n            self.pending.clear();\n        }\n        self.pending.extend_from_slice(buf);\n        self.position += buf.len() as u64;\n        Ok(buf.len())'),
      (W + 'mod.rs', '            position: limit!(start, 0),\n            writer,\n', '            position: limit!(start, 0),\n            pending: Vec::new(),\n            writer,\n')],
     'looking at the file after close but before the writer is dropped (or not dropping it at all)',
     'the end of the file is written only when the writer is dropped, after close reported success',
     r'''
fn main() {
    let mut w = TsFileWriter::new("a.tsfile", Schema::simple("d", "s", INT64, PLAIN, UNCOMPRESSED), Default::default()).unwrap();
    for t in 0..10 { w.write("d", "s", t, LONG(t)).unwrap(); }
    w.close().unwrap();
    let now = std::fs::read("a.tsfile").unwrap();
    drop(w);
    assert!(now == std::fs::read("a.tsfile").unwrap(), "the file changed after close");
    read(&now);
}''')

FAULTY = r'''
use std::cell::RefCell;
use std::io::Write;
use std::rc::Rc;
struct Sink { to: Rc<RefCell<Vec<u8>>>, most: usize }
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.most);
        self.to.borrow_mut().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn file(most: usize) -> Vec<u8> {
    let to = Rc::new(RefCell::new(vec![]));
    let mut w = ts::writer::verif::new_writer(Schema::simple("device", "measurement", INT64, PLAIN, UNCOMPRESSED), Sink { to: to.clone(), most }, Default::default()).unwrap();
    for t in 0..100 { w.write("device", "measurement", t, LONG(t)).unwrap(); }
    w.close().expect("close");
    let r = to.borrow().clone();
    r
}
fn main() {
    let whole = file(usize::MAX);
    for most in [1, 2, 3, 5, 7, 50, 1000] {
        assert!(file(most) == whole, "short writes of {}", most);
    }
    read(&whole);
}'''
seed('c13-short-name', 'C13',
     [(W + 'mod.rs', 'file.write_all(bytes)?; // measurement id', 'file.write(bytes)?; // measurement id')],
     'an underlying writer that accepts only part of a name',
     'the rest of the name is not written, the file is damaged without an error',
     FAULTY, flags='--cfg tsfile_verif')

seed('c13-position', 'C13',
     [(W + 'mod.rs', '                self.position += size as u64;\n                Ok(size)', '                self.position += buf.len() as u64;\n                Ok(size)')],
     'an underlying writer that accepts only part of a buffer',
     'the positions recorded in the file are too large after a short write',
     FAULTY, flags='--cfg tsfile_verif')

seed('c14-group-order', 'C14',
     [(W + 'tsfile_writer.rs', '    group_writers: BTreeMap<&\'a str, GroupWriter<\'a>>,', '    group_writers: HashMap<&\'a str, GroupWriter<\'a>>,')],
     'a schema with at least two devices',
     'the order of chunk groups differs between runs',
     r'''
fn file() -> Vec<u8> {
    let names: Vec<String> = (0..6).map(|i| format!("d{}", i)).collect();
    let mut b = TsFileSchemaBuilder::new();
    for n in &names { b.add(n, DeviceBuilder::new().add("s", INT64, PLAIN, UNCOMPRESSED).build()); }
    let mut w = TsFileWriter::new("a.tsfile", b.build(), Default::default()).unwrap();
    for n in &names { w.write(n, "s", 1, LONG(1)).unwrap(); }
    w.close().unwrap();
    std::fs::read("a.tsfile").unwrap()
}
fn main() {
    let f = file();
    for _ in 0..10 { assert!(f == file()); }
    read(&f);
}''')

seed('c15-first-wins', 'C15',
     [(W + 'schema.rs', '        self.measurement_groups_map.insert(device, schema);', '        self.measurement_groups_map.entry(device).or_insert(schema);')],
     'declaring a device twice',
     'the first declaration of the device is kept instead of the last',
     r'''
fn main() {
    let schema = TsFileSchemaBuilder::new()
        .add("d", DeviceBuilder::new().add("s", INT64, PLAIN, UNCOMPRESSED).build())
        .add("d", DeviceBuilder::new().add("s", INT32, TS2DIFF, SNAPPY).build())
        .build();
    let mut w = TsFileWriter::new("a.tsfile", schema, Default::default()).unwrap();
    w.write("d", "s", 1, INT(1)).expect("the last declaration");
    w.close().unwrap();
    let f = read(&std::fs::read("a.tsfile").unwrap());
    assert_eq!((f.chunks[0].dtype, f.chunks[0].encoding, f.chunks[0].compression), (1, 4, 1));
}''')

seed('c15-after-flush', 'C15',
     [(W + 'tsfile_writer.rs', '                                        measurement_schema.compression,\n                                        measurement_schema.encoding,\n                                    ),\n                                )\n                            })\n                            .collect(),\n                        // data',
       '                                        Default::default(),\n                                        measurement_schema.encoding,\n                                    ),\n                                )\n                            })\n                            .collect(),\n                        // data'),
      (W + 'compression.rs', '#[derive(PartialEq, Copy, Clone, Debug)]\npub enum CompressionType {\n    UNCOMPRESSED,', '#[derive(PartialEq, Copy, Clone, Debug, Default)]\npub enum CompressionType {\n    #[default]\n    UNCOMPRESSED,')],
     'a series with SNAPPY and an automatic flush, then more points',
     'chunks after the first flush are not compressed as declared',
     r'''
fn main() {
    let mut w = TsFileWriter::new("a.tsfile", Schema::simple("d", "s", INT64, PLAIN, SNAPPY), Default::default()).unwrap();
    let size = || std::fs::metadata("a.tsfile").unwrap().len();
    let (mut t, mut s, before) = (0i64, 88172645463325252u64, size());
    while size() == before {
        t += 1 + (rnd(&mut s) % 100_000_000) as i64;
        w.write("d", "s", t, LONG(rnd(&mut s) as i64)).unwrap();
    }
    w.write("d", "s", t + 1, LONG(t)).unwrap();
    w.close().unwrap();
    let f = read(&std::fs::read("a.tsfile").unwrap());
    assert!(f.chunks.len() == 2 && f.chunks.iter().all(|c| c.compression == 1));
}''')

seed('c15-unknown-code', 'C15',
     [(W + 'encoding/mod.rs', '            4 => Ok(TS2DIFF),\n            _ => Err(()),', '            4 => Ok(TS2DIFF),\n            v if v & 0x0f == 4 => Ok(TS2DIFF),\n            _ => Err(()),')],
     'an unknown encoding code whose low half is 4',
     'unknown codes are taken for TS_2DIFF',
     r'''
use ts::writer::encoding::TSEncoding;
fn main() {
    for c in 0..=255u8 {
        assert_eq!(TSEncoding::try_from(c).is_ok(), c == 0 || c == 4, "{}", c);
        if let Ok(e) = TSEncoding::try_from(c) { assert_eq!(e.serialize(), c); }
    }
}''')
SEEDS = [s for s in SEEDS if s]
