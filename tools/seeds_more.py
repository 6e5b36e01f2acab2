"""Second round of planted changes."""
import seeds_writer as SW
import seeds_sync as SS
W, S, C = SW.W, SS.S, SS.C
SEEDS = []


def w(id, prop, edits, needs, breaks, demo, flags=''):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=SW.PRE + demo, flags=flags, features=False))


def s(id, prop, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=SS.PRE + demo, flags=SS.CFG, features=True,
                           files=['receiver.rs']), **kw))


SINK = r'''
use std::cell::RefCell;
use std::io::{Error, ErrorKind, Result, Write};
use std::rc::Rc;
#[derive(Default)]
struct State { to: Vec<u8>, writes: usize, flushes: usize }
struct Sink<F: FnMut(&mut State, Option<&[u8]>) -> Result<usize>>(Rc<RefCell<State>>, F);
impl<F: FnMut(&mut State, Option<&[u8]>) -> Result<usize>> Write for Sink<F> {
    fn write(&mut self, b: &[u8]) -> Result<usize> { let mut s = self.0.borrow_mut(); s.writes += 1; (self.1)(&mut s, Some(b)) }
    fn flush(&mut self) -> Result<()> { let mut s = self.0.borrow_mut(); s.flushes += 1; (self.1)(&mut s, None).map(|_| ()) }
}
#[allow(unused)]
fn all(s: &mut State, b: Option<&[u8]>) -> Result<usize> { Ok(b.map_or(0, |b| { s.to.extend_from_slice(b); b.len() })) }
'''

w('c02-zero-twice', 'C02',
  [(W + 'group_writer.rs', '        self.last_time_map.insert(measurement_id, timestamp);\n        Ok(record_count)',
    '        if timestamp > 0 {\n            self.last_time_map.insert(measurement_id, timestamp);\n        }\n        Ok(record_count)')],
  'a second point at timestamp 0 right after the first',
  'a series accepts several points with the timestamp 0',
  r'''
fn main() {
    let mut w = TsFileWriter::new("a.tsfile", Schema::simple("d", "s", INT64, PLAIN, UNCOMPRESSED), Default::default()).unwrap();
    w.write("d", "s", 0, LONG(1)).unwrap();
    assert!(w.write("d", "s", 0, LONG(2)).is_err());
    w.write("d", "s", 1, LONG(3)).unwrap();
    w.close().unwrap();
    let p = points(&read(&std::fs::read("a.tsfile").unwrap()));
    assert_eq!(p[&("d".to_string(), "s".to_string())], vec![(0, 1), (1, 3)]);
}''')

w('c06-widening', 'C06',
  [(W + 'statistics.rs', '''                if statistics.max_value > self.max_value {
                    self.max_value = statistics.max_value;
                }
                if statistics.min_value < self.min_value {
                    self.min_value = statistics.min_value;
                }
                self.count += statistics.count;''',
    '''                if self.count == 0 {
                    self.max_value = statistics.max_value;
                    self.min_value = statistics.min_value;
                } else if statistics.max_value > self.max_value {
                    self.max_value = statistics.max_value;
                } else if statistics.min_value < self.min_value {
                    self.min_value = statistics.min_value;
                }
                self.count += statistics.count;''')],
  'a later page (or chunk) of a series with both a larger and a smaller value than all before it',
  'the minimum of the chunk (or series) is too large',
  r'''
fn main() {
    // pages of random values, each time wider than before
    let (mut t, mut x) = (0i64, 88172645463325252u64);
    let mut w = TsFileWriter::new("a.tsfile", Schema::simple("d", "s", INT64, PLAIN, UNCOMPRESSED), Default::default()).unwrap();
    for n in 1..40_000i64 {
        t += 1;
        let v = (rnd(&mut x) % (2 * n as u64)) as i64 - n;
        w.write("d", "s", t, LONG(v)).unwrap();
    }
    w.close().unwrap();
    let f = read(&std::fs::read("a.tsfile").unwrap());
    let all: Vec<i64> = f.chunks.iter().flat_map(|c| c.pages.iter()).flat_map(|p| p.points.iter()).map(|p| p.1 as i64).collect();
    assert!(f.chunks[0].pages.len() > 2);
    let raw = &f.series[0].stats.raw;
    let at = |k: usize| i64::from_be_bytes(raw[8 * k..8 * k + 8].try_into().unwrap());
    assert_eq!((at(0), at(1)), (*all.iter().min().unwrap(), *all.iter().max().unwrap()));
}''')

w('c07-largest', 'C07',
  [(W + 'mod.rs', '            size.max(config.minimal_size),\n', '            size.max(config.minimal_size).min(1 << 16),\n')],
  'a file with more than about ten thousand series',
  'the filter is smaller than its error rate requires',
  r'''
fn main() {
    let n = 12_000;
    let names: Vec<String> = (0..n).map(|i| format!("s{}", i)).collect();
    let mut b = DeviceBuilder::new();
    for m in &names { b.add(m, INT32, PLAIN, UNCOMPRESSED); }
    let g = b.build();
    let mut w = TsFileWriter::new("a.tsfile", TsFileSchemaBuilder::new().add("d", g).build(), Default::default()).unwrap();
    for m in &names { w.write("d", m, 1, INT(1)).unwrap(); }
    w.close().unwrap();
    let f = read(&std::fs::read("a.tsfile").unwrap());
    let ln2 = 2f64.ln();
    assert!(f.bloom_size as f64 >= -(n as f64) * 0.05f64.ln() / ln2 / ln2, "{} bits for {} series", f.bloom_size, n);
}''')

w('c08-int-range', 'C08',
  [(W + 'encoding/time_encoder.rs', '                    let value_width = Self::get_value_width(v);\n', '                    let value_width = Self::get_value_width(v).min($num_bits - 1);\n')],
  'differences within one block that are at least half the range of the type apart',
  'the top bit of such differences is lost',
  r'''
fn main() {
    for v in [vec![0, 1, i32::MIN, i32::MAX], vec![i32::MAX, i32::MIN, 7], vec![5, -5]] {
        let mut w = TsFileWriter::new("a.tsfile", Schema::simple("d", "s", INT32, TS2DIFF, UNCOMPRESSED), Default::default()).unwrap();
        for (t, x) in v.iter().enumerate() { w.write("d", "s", t as i64, INT(*x)).unwrap(); }
        w.close().unwrap();
        let p = points(&read(&std::fs::read("a.tsfile").unwrap()));
        assert_eq!(p[&("d".to_string(), "s".to_string())], v.iter().enumerate().map(|(t, x)| (t as i64, *x as i64 as u64)).collect::<Vec<_>>());
    }
}''')

w('c09-after-flush', 'C09',
  [(W + 'tsfile_writer.rs', '                self.record_count_for_next_mem_check = (self.record_count_for_next_mem_check as u64\n                    * limit!(group_size, CHUNK_GROUP_SIZE_THRESHOLD_BYTE) as u64\n                    / mem_size as u64)\n                    as u32;\n                return',
    '                self.record_count_for_next_mem_check = self.record_count_for_next_mem_check.saturating_mul(2);\n                return')],
  'going on writing after the first automatic flush',
  'after each flush twice as much is buffered before the next',
  r'''
fn main() {
    // groups of one limit each: in a verification build with a small limit
    ts::writer::verif::set_limits(ts::writer::verif::Limits { group_size: Some(100_000), ..Default::default() });
    let mut w = TsFileWriter::new("a.tsfile", Schema::simple("d", "s", INT64, PLAIN, UNCOMPRESSED), Default::default()).unwrap();
    for t in 0..200_000i64 { w.write("d", "s", t * 1_000_003 % 7 + t * 10, LONG(t)).unwrap(); }
    w.close().unwrap();
    let f = read(&std::fs::read("a.tsfile").unwrap());
    for c in &f.chunks {
        let n: usize = c.pages.iter().map(|p| p.points.len()).sum();
        assert!(n < 20_000, "{} points in one chunk", n);
    }
}''', flags='--cfg tsfile_verif')

w('c09-batches', 'C09',
  [(W + 'tsfile_writer.rs', '                self.record_count += records_written;\n                result', '                self.record_count = self.record_count.max(records_written);\n                result')],
  'writing mainly through batches',
  'points of batches do not bring the next memory check closer: what is buffered is never flushed',
  r'''
fn main() {
    ts::writer::verif::set_limits(ts::writer::verif::Limits { group_size: Some(100_000), ..Default::default() });
    let mut w = TsFileWriter::new("a.tsfile", Schema::simple("d", "s", INT64, PLAIN, UNCOMPRESSED), Default::default()).unwrap();
    for t in 0..100_000i64 { w.write_many("d", t, vec![DataPoint::new("s", LONG(t * 7))]).unwrap(); }
    w.close().unwrap();
    assert!(read(&std::fs::read("a.tsfile").unwrap()).chunks.len() > 1);
}''', flags='--cfg tsfile_verif')

w('c10-long-batch', 'C10',
  [(W + 'group_writer.rs', '        for dp in values {\n', '        for dp in values.into_iter().take(1000) {\n')],
  'a batch of more than a thousand points',
  'the rest of the batch is dropped without an error',
  r'''
fn main() {
    let names: Vec<String> = (0..1200).map(|i| format!("s{}", i)).collect();
    let mut b = DeviceBuilder::new();
    for m in &names { b.add(m, INT32, PLAIN, UNCOMPRESSED); }
    let g = b.build();
    let mut w = TsFileWriter::new("a.tsfile", TsFileSchemaBuilder::new().add("d", g).build(), Default::default()).unwrap();
    w.write_many("d", 1, names.iter().map(|m| DataPoint::new(m, INT(1))).collect::<Vec<_>>()).unwrap();
    w.close().unwrap();
    assert_eq!(points(&read(&std::fs::read("a.tsfile").unwrap())).len(), 1200);
}''')

w('c13-interrupted', 'C13',
  [(W + 'mod.rs', '            Err(e) => Err(e),\n        }\n    }\n\n    fn flush', '            Err(e) if e.kind() == io::ErrorKind::Interrupted => Ok(0),\n            Err(e) => Err(e),\n        }\n    }\n\n    fn flush')],
  'an underlying writer that is interrupted and would go on',
  'the interruption becomes an error',
  SINK + r'''
fn main() {
    let st = Rc::new(RefCell::new(State::default()));
    let sink = Sink(st.clone(), |s: &mut State, b: Option<&[u8]>| if b.is_some() && s.writes % 3 == 0 { Err(Error::from(ErrorKind::Interrupted)) } else { all(s, b) });
    let mut w = ts::writer::verif::new_writer(Schema::simple("d", "s", INT64, PLAIN, UNCOMPRESSED), sink, Default::default()).expect("new");
    for t in 0..100 { w.write("d", "s", t, LONG(t)).unwrap(); }
    w.close().expect("close");
    read(&st.borrow().to.clone());
}''', flags='--cfg tsfile_verif')

w('c13-flush-lost', 'C13',
  [(W + 'mod.rs', '        self.writer.flush()\n    }\n}\n\nimpl<T: Write> PositionedWrite', '        let _ = self.writer.flush();\n        Ok(())\n    }\n}\n\nimpl<T: Write> PositionedWrite')],
  'an underlying writer that buffers and fails when it is flushed',
  'close reports success although the data were not taken',
  SINK + r'''
fn main() {
    let st = Rc::new(RefCell::new(State::default()));
    let sink = Sink(st.clone(), |s: &mut State, b: Option<&[u8]>| if b.is_none() { Err(Error::from(ErrorKind::Other)) } else { all(s, b) });
    let mut w = ts::writer::verif::new_writer(Schema::simple("d", "s", INT64, PLAIN, UNCOMPRESSED), sink, Default::default()).expect("new");
    for t in 0..100 { w.write("d", "s", t, LONG(t)).unwrap(); }
    assert!(w.close().is_err());
    let mut v = ts::writer::verif::new_writer(Schema::simple("d", "s", INT64, PLAIN, UNCOMPRESSED), Sink(st.clone(), all), Default::default()).unwrap();
    st.borrow_mut().to = b"TsFile\x03".to_vec();
    v.write("d", "s", 1, LONG(1)).unwrap();
    v.close().unwrap();
    read(&st.borrow().to.clone());
}''', flags='--cfg tsfile_verif')

w('c14-remembered', 'C14',
  [(W + 'chunk_writer.rs', '            let current_page_size = page_writer.estimate_max_mem_size();\n\n',
    '            static LARGEST: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);\n            let per_point = page_writer.estimate_max_mem_size() / page_writer.point_number.max(1);\n            let per_point = per_point.max(LARGEST.fetch_max(per_point, std::sync::atomic::Ordering::Relaxed));\n            let current_page_size = page_writer.estimate_max_mem_size().max(per_point * page_writer.point_number);\n\n')],
  'two writers in one process, the first with larger points than the second',
  'where the pages of the second writer end depends on what the first one wrote',
  r'''
fn file(ty: TSDataType, n: i64) -> Vec<u8> {
    let mut w = TsFileWriter::new("a.tsfile", Schema::simple("d", "s", ty, PLAIN, UNCOMPRESSED), Default::default()).unwrap();
    let (mut x, mut t) = (88172645463325252u64, 0);
    for k in 0..n {
        if ty == INT64 { t += (rnd(&mut x) >> 16) as i64 % 1_000_000_000 + 1 } else { t += 1 }
        w.write("d", "s", t, if ty == INT64 { LONG(k) } else { INT(k as i32) }).unwrap();
    }
    w.close().unwrap();
    std::fs::read("a.tsfile").unwrap()
}
fn main() {
    let before = file(INT32, 60_000);
    file(INT64, 60_000);
    let after = file(INT32, 60_000);
    assert!(before == after, "{} {}", before.len(), after.len());
    read(&after);
}''')

w('c15-build-drains', 'C15',
  [(W + 'schema.rs', '        for (s, ms) in self.measurement_groups_map.iter_mut() {\n            measurement_schemas.insert(s, ms.clone());\n        }',
    '        let last = self.measurement_groups_map.keys().max().copied();\n        for (s, ms) in self.measurement_groups_map.iter_mut() {\n            measurement_schemas.insert(s, ms.clone());\n        }\n        self.measurement_groups_map.retain(|s, _| Some(*s) == last);')],
  'one device builder used for two devices',
  'the second device lacks measurements that were declared',
  r'''
fn main() {
    let mut b = DeviceBuilder::new();
    b.add("s", INT64, PLAIN, UNCOMPRESSED).add("u", INT64, PLAIN, UNCOMPRESSED);
    let (x, y) = (b.build(), b.build());
    let mut w = TsFileWriter::new("a.tsfile", TsFileSchemaBuilder::new().add("d", x).add("e", y).build(), Default::default()).unwrap();
    for d in ["d", "e"] { for m in ["s", "u"] { w.write(d, m, 1, LONG(1)).expect(m); } }
    w.close().unwrap();
    assert_eq!(points(&read(&std::fs::read("a.tsfile").unwrap())).len(), 4);
}''')

w('c03-refused-counted', 'C03',
  [(W + 'tsfile_writer.rs', '        match self.group_writers.get_mut(device) {\n            Some(group) => {\n                let records_written = group.write(measurement_id, timestamp, value)?;\n                self.record_count += records_written;',
    '        match self.group_writers.get_mut(device) {\n            Some(group) => {\n                let written = group.write(measurement_id, timestamp, value);\n                self.record_count += 1;\n                written?;')],
  'refused writes among accepted ones',
  'refused points count for the next memory check: chunks end elsewhere than without the refused calls',
  r'''
fn file(refused: bool) -> Vec<u8> {
    ts::writer::verif::set_limits(ts::writer::verif::Limits { group_size: Some(10_000), ..Default::default() });
    let mut w = TsFileWriter::new("a.tsfile", Schema::simple("d", "s", INT64, PLAIN, UNCOMPRESSED), Default::default()).unwrap();
    for t in 0..20_000i64 {
        w.write("d", "s", t, LONG(t)).unwrap();
        if refused && t % 3 == 0 { assert!(w.write("d", "s", t, LONG(t)).is_err()); }
    }
    w.close().unwrap();
    std::fs::read("a.tsfile").unwrap()
}
fn main() {
    let (a, b) = (file(false), file(true));
    assert!(a == b, "{} {}", a.len(), b.len());
    read(&a);
}''', flags='--cfg tsfile_verif')

w('c04-256-pages', 'C04',
  [(W + 'chunk_writer.rs', '            self.page_buffer.len() as u32,\n            self.num_pages,', '            self.page_buffer.len() as u32,\n            self.num_pages as u8 as u32,')],
  'a chunk of 256 or 257 pages (or 512, ...)',
  'the chunk header says that there is a single page',
  r'''
fn main() {
    ts::writer::verif::set_limits(ts::writer::verif::Limits { max_points_in_page: Some(1), ..Default::default() });
    for pages in [255, 256, 257i64] {
        let mut w = TsFileWriter::new("a.tsfile", Schema::simple("d", "s", INT64, PLAIN, UNCOMPRESSED), Default::default()).unwrap();
        for t in 0..2 * pages { w.write("d", "s", t, LONG(t)).unwrap(); }
        w.close().unwrap();
        let f = read(&std::fs::read("a.tsfile").unwrap());
        assert_eq!(f.chunks[0].pages.len(), pages as usize);
    }
}''', flags='--cfg tsfile_verif')

w('c05-many-chunks', 'C05',
  [(W + 'tsfile_io_writer.rs', '            for m in metadata {\n', '            for m in metadata.iter().take(u8::MAX as usize) {\n')],
  'a series with more than 255 chunks',
  'the later chunks are missing from the entry of the series',
  r'''
fn main() {
    ts::writer::verif::set_limits(ts::writer::verif::Limits { group_size: Some(200), ..Default::default() });
    let mut w = TsFileWriter::new("a.tsfile", Schema::simple("d", "s", INT64, PLAIN, UNCOMPRESSED), Default::default()).unwrap();
    for t in 0..20_000i64 { w.write("d", "s", t, LONG(t)).unwrap(); }
    w.close().unwrap();
    let f = read(&std::fs::read("a.tsfile").unwrap());
    assert!(f.chunks.len() > 256);
    check_index(&f);
}''', flags='--cfg tsfile_verif')

w('c01-blank-names', 'C01',
  [(W + 'tsfile_io_writer.rs', '            device_id.into(),\n            self.chunk_metadata_list.clone(),', '            device_id.trim_end().into(),\n            self.chunk_metadata_list.clone(),')],
  'two devices whose names differ only by blanks at the end',
  'their points end up under one device',
  r'''
fn main() {
    let mut b = TsFileSchemaBuilder::new();
    for n in ["d", "d "] { b.add(n, DeviceBuilder::new().add("s", INT64, PLAIN, UNCOMPRESSED).build()); }
    let mut w = TsFileWriter::new("a.tsfile", b.build(), Default::default()).unwrap();
    w.write("d", "s", 1, LONG(1)).unwrap();
    w.write("d ", "s", 2, LONG(2)).unwrap();
    w.close().unwrap();
    let f = read(&std::fs::read("a.tsfile").unwrap());
    let names: Vec<_> = f.series.iter().map(|s| s.device.clone()).collect();
    assert_eq!(names, vec!["d".to_string(), "d ".to_string()]);
}''')

s('c16-ask-again', 'C16',
  [(S + 'sync_sender.rs', '        let result = self.client.check(confirm);\n', '        let result = match self.client.check(confirm.clone()) {\n            Err(Error::Application(_)) => self.client.check(confirm),\n            result => result,\n        };\n')],
  'a receiver that answers the check with an exception (or out of sequence) and would accept a second one',
  'the sender asks twice and becomes usable',
  r'''
use std::io::{Read, Write};
fn main() {
    // a good receiver
    let (a, _) = start(ok);
    SyncSender::new(&a, Some("here"), Some("me")).unwrap();
    // one that answers out of sequence, then properly
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let addr = l.local_addr().unwrap().to_string();
    let asked = std::sync::Arc::new(std::sync::Mutex::new(0));
    let n = asked.clone();
    std::thread::spawn(move || {
        let (mut s, _) = l.accept().unwrap();
        loop {
            let mut h = [0; 4];
            if s.read_exact(&mut h).is_err() { return }
            let mut b = vec![0; u32::from_be_bytes(h) as usize];
            s.read_exact(&mut b).unwrap();
            // name, type of message, sequence number
            let k = 4 + u32::from_be_bytes(b[..4].try_into().unwrap()) as usize + 1;
            let mut r = b[..k + 4].to_vec();
            r[k - 1] = 2;
            let mut m = n.lock().unwrap();
            *m += 1;
            if *m == 1 { r[k + 3] ^= 0x55 }
            r.extend([12, 0, 0, 8, 0, 1, 0, 0, 0, 0, 11, 0, 2, 0, 0, 0, 0, 0, 0]);
            s.write_all(&(r.len() as u32).to_be_bytes()).unwrap();
            s.write_all(&r).unwrap();
        }
    });
    assert!(SyncSender::new(&addr, Some("here"), Some("me")).is_err());
    std::thread::sleep(std::time::Duration::from_millis(200));
    assert_eq!(*asked.lock().unwrap(), 1);
}''')

s('c17-log-once', 'C17',
  [(S + 'sync_sender.rs', '        let mlog_bytes: Vec<u8> =\n            Self::write_mlog(storage_group, schema).map_err(|_| SyncSenderError::SyncError)?;\n',
    '        static LOGS: std::sync::Mutex<Vec<(String, String, Vec<u8>)>> = std::sync::Mutex::new(Vec::new());\n        let mut logs = LOGS.lock().unwrap();\n        let key = format!("{}", schema);\n        let known = logs.iter().find(|l| l.0 == storage_group && l.1 == key);\n        let mlog_bytes: Vec<u8> = match known {\n            Some(l) => l.2.clone(),\n            None => {\n                let b = Self::write_mlog(storage_group, schema)\n                    .map_err(|_| SyncSenderError::SyncError)?;\n                logs.push((storage_group.to_string(), key, b.clone()));\n                b\n            }\n        };\n        drop(logs);\n')],
  'two sessions with the same storage group and device but other measurements',
  'the second session sends the schema log of the first',
  r'''
fn main() {
    std::fs::write("f", "content").unwrap();
    let (a, calls) = start(ok);
    let mut s = SyncSender::new(&a, Some("here"), Some("me")).unwrap();
    for m in ["one", "two"] {
        calls.lock().unwrap().clear();
        s.verif_sync("f", "root.sg", Schema::simple("d", m, INT32, PLAIN, UNCOMPRESSED)).unwrap();
        let c = calls.lock().unwrap();
        let log = &c.iter().find(|c| c.name == "syncData").unwrap().data[0];
        assert_eq!(plans(log).1, vec![(format!("root.sg.d.{}", m), 1, 0, 0)]);
    }
}''')

s('c18-prefix', 'C18',
  [(S + 'sync_sender.rs', '                let path = format!("{}.{}.{}", storage_group, device_id, measurement_id);\n',
    '                let path = match device_id.starts_with(storage_group) {\n                    true => format!("{}.{}", device_id, measurement_id),\n                    false => format!("{}.{}.{}", storage_group, device_id, measurement_id),\n                };\n')],
  'a device whose name begins with the storage group',
  'its series are announced under another path',
  SS.MLOG + r'''
fn main() {
    for d in ["d", "root.sg2.d"] {
        let (_, series) = plans(&log("root.sg", Schema::simple(d, "s", INT32, PLAIN, UNCOMPRESSED)));
        assert_eq!(series, vec![(format!("root.sg.{}.s", d), 1, 0, 0)]);
    }
}''', extra='thrift = "0.14"')

s('c19-trim', 'C19',
  [(S + 'sync_sender.rs', '                Ok(content)\n            }\n            Err(_) => {\n                println!("Generating', '                Ok(content.trim().to_string())\n            }\n            Err(_) => {\n                println!("Generating')],
  'a stored identity with white space around it',
  'the sender presents another identity than the stored one',
  r'''
fn main() {
    for id in ["me", " me", "me\n"] {
        std::fs::write("uuid.lock", id).unwrap();
        let (a, calls) = start(ok);
        SyncSender::new(&a, Some("here"), None).unwrap();
        assert_eq!(calls.lock().unwrap()[0].data[1], id.as_bytes());
        assert_eq!(std::fs::read("uuid.lock").unwrap(), id.as_bytes());
    }
}''')

s('c19-given-stored', 'C19',
  [(S + 'sync_sender.rs', '            Some(u) => u.to_string(),\n', '            Some(u) => {\n                if u.len() == 32 {\n                    let _ = fs::write("uuid.lock", u);\n                }\n                u.to_string()\n            }\n')],
  'an explicitly given identity of 32 characters',
  'it replaces the stored one, later senders present another identity than before',
  r'''
fn main() {
    let (a, calls) = start(ok);
    SyncSender::new(&a, Some("here"), None).unwrap();
    SyncSender::new(&a, Some("here"), Some("00112233445566778899aabbccddeeff")).unwrap();
    SyncSender::new(&a, Some("here"), None).unwrap();
    let c = calls.lock().unwrap();
    assert!(c[0].data[1] == c[2].data[1] && c[1].data[1] == b"00112233445566778899aabbccddeeff");
}''')

SEEDS.append(dict(id='c20-same-pointer', prop='C20', flags='', features=False, script='cdemo.sh', files=[],
    edits=[(C, '    let mut writer = unsafe { Box::from_raw(writer) };\n\n    writer\n        .write(\n            device_id.to_str().unwrap(),\n            measurement_id.to_str().unwrap(),',
            '    let mut writer = unsafe { Box::from_raw(writer) };\n\n    thread_local! {\n        static LAST: std::cell::RefCell<(usize, String)> = Default::default();\n    }\n    let device = LAST.with(|l| {\n        let mut l = l.borrow_mut();\n        if l.0 != device_id.as_ptr() as usize {\n            *l = (device_id.as_ptr() as usize, device_id.to_str().unwrap().to_owned());\n        }\n        l.1.clone()\n    });\n    let device: &\'static str = Box::leak(device.into_boxed_str());\n\n    writer\n        .write(\n            device,\n            measurement_id.to_str().unwrap(),')],
    needs='a caller that uses one buffer for the device name and changes what is in it',
    breaks='the name the buffer held at the first call is used: points of another device are refused or misattributed',
    main='main.c', demo=SS.CDEMO + r'''
int main(void) {
    static char a[100000], b[100000];
    char name[8], other[8] = "b";
    void *w = 0;
    void *s = schema_simple("b", "s", 1, 0, 0), *x = schema_simple("a", "s", 1, 0, 0);
    for (int k = 0; k < 2; k++) {
        if (k) {
            /* another device through the same buffer first */
            strcpy(name, "a");
            w = file_writer_new("x.tsfile", x);
            w = file_writer_write_int32(w, name, "s", 1, 1);
            file_writer_close(w);
            strcpy(name, "b");
        }
        w = file_writer_new(k ? "b.tsfile" : "a.tsfile", s);
        for (int t = 0; t < 10; t++) w = file_writer_write_int32(w, k ? name : other, "s", t, t);
        file_writer_close(w);
    }
    schema_free(s);
    schema_free(x);
    long n = load("a.tsfile", a), m = load("b.tsfile", b);
    return n != m || memcmp(a, b, n) ? 1 : 0;
}'''))
