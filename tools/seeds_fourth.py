"""Fourth round of planted changes."""
import seeds_more as SM
import seeds_sync as SS
from seeds_more import W, S, SINK
SM.SEEDS, SEEDS = [], SM.SEEDS      # SM.w and SM.s append to SM.SEEDS
w, s = SM.w, SM.s
V = "ts::writer::verif::"

s('c16-impatient', 'C16',
  [(S + 'sync_sender.rs', '        let mut c = TTcpChannel::new();\n        c.open(remote_addr)?;\n',
    '        let stream = std::net::TcpStream::connect(remote_addr)\n            .map_err(|_| SyncSenderError::ConnectionError)?;\n        // do not wait forever for a receiver that hangs\n        stream\n            .set_read_timeout(Some(std::time::Duration::from_secs(1)))\n            .map_err(|_| SyncSenderError::ConnectionError)?;\n        let c = TTcpChannel::with_stream(stream);\n')],
  'a receiver that takes more than a second to answer the handshake',
  'the sender gives up although the receiver accepts it',
  r'''
fn main() {
    for wait in [0, 1500] {
        let (a, _) = start(move |_, _| { std::thread::sleep(std::time::Duration::from_millis(wait)); Some((0, String::new())) });
        SyncSender::new(&a, Some("here"), Some("me")).expect("accepted");
    }
}''')

s('c17-resend', 'C17',
  [(S + 'sync_sender.rs', '        Self::check_status(self.client.check_data_digest(digest)?)?;\n        Self::check_status(self.client.end_sync()?)?;',
    '        let status = self.client.check_data_digest(digest.clone())?;\n        if Self::check_status(status).is_err() {\n            // damaged on its way, send it once more\n            Self::check_status(self.client.sync_data(bytes)?)?;\n            Self::check_status(self.client.check_data_digest(digest)?)?;\n        }\n        Self::check_status(self.client.end_sync()?)?;'),
   (S + 'sync_sender.rs', 'Self::calculate_digest(&bytes);', 'Self::calculate_digest(bytes.as_slice());')],
  'a receiver that refuses the digest of the data file once',
  'the steps are not those of a session, and it reports success after a refusal',
  r'''
fn main() {
    for k in [0usize, 7, 8] {
        std::fs::write("f", "content").unwrap();
        let (a, _) = start(move |n, _| Some((if k > 0 && n == k { -1 } else { 0 }, String::new())));
        let mut s = SyncSender::new(&a, Some("here"), Some("me")).unwrap();
        assert_eq!(s.verif_sync("f", "root.sg", Schema::simple("d", "m", INT32, PLAIN, UNCOMPRESSED)).is_ok(), k == 0);
    }
}''')

s('c17-empty-schema', 'C17',
  [(S + 'sync_sender.rs', '        // First sync a schema\n        Self::check_status(\n            self.client\n                .init_sync_data(std::string::String::from("mlog.bin"))?,\n        )?;\n',
    '        // First sync a schema\n        let log = match schema.get_devices().len() {\n            0 => "mlog.tmp",\n            _ => "mlog.bin",\n        };\n        Self::check_status(self.client.init_sync_data(std::string::String::from(log))?)?;\n')],
  'a schema without devices',
  'its log is sent under another name',
  r'''
fn main() {
    std::fs::write("f", "content").unwrap();
    for schema in [Schema::simple("d", "m", INT32, PLAIN, UNCOMPRESSED), TsFileSchemaBuilder::new().build()] {
        let (a, calls) = start(ok);
        let mut s = SyncSender::new(&a, Some("here"), Some("me")).unwrap();
        s.verif_sync("f", "root.sg", schema).unwrap();
        let c = calls.lock().unwrap();
        let names: Vec<_> = c.iter().filter(|c| c.name == "initSyncData").map(|c| String::from_utf8(c.data[0].clone()).unwrap()).collect();
        assert_eq!(names, vec!["mlog.bin", "0_0_f"]);
    }
}''')

s('c18-sg-chars', 'C18',
  [(S + 'mlog.rs', '        let bytes = path.as_bytes();\n        writer.write_all(&(bytes.len() as i32).to_be_bytes())?;\n        writer.write_all(bytes)?;\n        // buffer.putLong(index);',
    '        let bytes = path.as_bytes();\n        let length = path.chars().count() as i32;\n        writer.write_all(&length.to_be_bytes())?;\n        writer.write_all(bytes)?;\n        // buffer.putLong(index);')],
  'a storage group with a character outside ASCII',
  'the length before its path is too small, the log cannot be decoded',
  SS.MLOG + r'''
fn main() {
    for g in ["root.sg", "root.grün"] {
        let (groups, series) = plans(&log(g, Schema::simple("d", "m", INT32, PLAIN, UNCOMPRESSED)));
        assert_eq!(groups, vec![g.to_string()]);
        assert_eq!(series, vec![(format!("{}.d.m", g), 1, 0, 0)]);
    }
}''', extra='thrift = "0.14"')

s('c19-empty-given', 'C19',
  [(S + 'sync_sender.rs', '            Some(u) => u.to_string(),\n            None => Self::get_or_generate_uuid()?,',
    '            Some(u) if !u.trim().is_empty() => u.to_string(),\n            _ => Self::get_or_generate_uuid()?,')],
  'an explicitly given identity that is empty or blank',
  'it is replaced by the stored identity, or one is generated and stored',
  r'''
fn main() {
    for id in ["me", " ", ""] {
        let (a, calls) = start(ok);
        SyncSender::new(&a, Some("here"), Some(id)).unwrap();
        assert_eq!(calls.lock().unwrap()[0].data[1], id.as_bytes());
        assert!(!std::path::Path::new("uuid.lock").exists());
    }
}''')

w('c02-many-devices', 'C02',
  [(W + 'tsfile_writer.rs', '''                self.non_aligned_timeseries_last_time_map
                    .insert(device_id, group_writer.get_last_time_map());''',
    '''                if self.non_aligned_timeseries_last_time_map.len() >= 1024 {
                    // do not grow without bounds
                    self.non_aligned_timeseries_last_time_map.pop_first();
                }
                self.non_aligned_timeseries_last_time_map
                    .insert(device_id, group_writer.get_last_time_map());''')],
  'more than 1024 devices, and a flush before the file is closed',
  'a device accepts timestamps that it had already',
  r'''
fn main() {
    ts::writer::verif::set_limits(ts::writer::verif::Limits { group_size: Some(1000), first_mem_check: Some(4000), ..Default::default() });
    let names: Vec<String> = (0..2000).map(|k| format!("d{:05}", k)).collect();
    let mut sb = TsFileSchemaBuilder::new();
    for n in &names { sb.add(n, DeviceBuilder::new().add("s", INT64, PLAIN, UNCOMPRESSED).build()); }
    let mut w = TsFileWriter::new("a.tsfile", sb.build(), Default::default()).unwrap();
    for t in 0..3 { for n in &names { w.write(n, "s", t, LONG(t)).unwrap(); } }
    for n in &names { assert!(w.write(n, "s", 1, LONG(1)).is_err()); }
}''', flags='--cfg tsfile_verif')

w('c13-zero', 'C13',
  [(W + 'mod.rs', '''            Err(e) => Err(e),
        }
    }

    fn flush(&mut self) -> io::Result<()> {
        self.writer.flush()''', '''            Err(e) => Err(e),
        }
    }

    fn write_all(&mut self, mut buf: &[u8]) -> io::Result<()> {
        loop {
            match self.write(buf) {
                Ok(size) if size == 0 || size == buf.len() => return Ok(()),
                Ok(size) => buf = &buf[size..],
                Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
                Err(e) => return Err(e),
            }
        }
    }

    fn flush(&mut self) -> io::Result<()> {
        self.writer.flush()''')],
  'an underlying writer that at some point takes nothing more (Ok(0), as a full slice does)',
  'the rest is dropped while close reports success',
  SINK + r'''
fn main() {
    let write = |full: usize| {
        let st = Rc::new(RefCell::new(State::default()));
        let out = Sink(st.clone(), move |s: &mut State, b: Option<&[u8]>| Ok(b.map_or(0, |b| {
            let n = b.len().min(full - s.to.len());
            s.to.extend_from_slice(&b[..n]);
            n
        })));
        let ok = match VERIFnew_writer(Schema::simple("d", "s", INT64, PLAIN, UNCOMPRESSED), out, Default::default()) {
            Ok(mut w) => (0..5).all(|t| w.write("d", "s", t, LONG(t)).is_ok()) && w.close().is_ok(),
            Err(_) => false,
        };
        let n = st.borrow().to.len();
        (ok, n)
    };
    let (ok, n) = write(100000);
    assert!(ok);
    for k in 0..n { assert!(!write(k).0, "{}", k); }
    assert!(write(n).0);
}'''.replace('VERIF', V), flags='--cfg tsfile_verif')

w('c08-large-page', 'C08',
  [(W + 'chunk_writer.rs', '''                    let mut encoder1 = snap::raw::Encoder::new();
                    let out_buffer_len = max_compress_len(page_writer.buffer.len());
                    let mut out = vec![0; out_buffer_len];
                    match encoder1.compress(&page_writer.buffer, out.as_mut_slice()) {
                        Ok(size) => {
                            let mut reader = &out.as_mut_slice()[..size];
                            io::copy(&mut reader, &mut compressed_buffer);
                            size as u32
                        }
                        Err(_) => {
                            return Err(TsFileError::Compression);
                        }
                    }
''', '''                    let mut encoder1 = snap::raw::Encoder::new();
                    // in blocks, so that the buffer for the result remains small
                    let mut out = vec![0; max_compress_len(1 << 17)];
                    for block in page_writer.buffer.chunks(1 << 17) {
                        match encoder1.compress(block, out.as_mut_slice()) {
                            Ok(size) => {
                                let mut reader = &out.as_mut_slice()[..size];
                                io::copy(&mut reader, &mut compressed_buffer);
                            }
                            Err(_) => {
                                return Err(TsFileError::Compression);
                            }
                        }
                    }
                    compressed_buffer.len() as u32
''')],
  'a compressed page of more than 128 KiB (its size is not checked between its first values and many more that do not compress)',
  'it consists of two blocks, which no reader can decompress',
  r'''
fn main() {
    let mut x = 88172645463325252u64;
    let mut w = TsFileWriter::new("a.tsfile", Schema::simple("d", "s", INT64, TS2DIFF, SNAPPY), Default::default()).unwrap();
    let (mut t, mut want) = (0i64, vec![]);
    for k in 0..60_000 {
        // regular first, so that the next check of the size is far away
        let v = if k < 8000 { 7 * k } else { rnd(&mut x) as i64 };
        t += if k < 8000 { 1 } else { 1 + (rnd(&mut x) >> 20) as i64 };
        w.write("d", "s", t, LONG(v)).unwrap();
        want.push((t, v as u64));
    }
    w.close().unwrap();
    let p = points(&read(&std::fs::read("a.tsfile").unwrap()));
    assert_eq!(p[&("d".to_string(), "s".to_string())], want);
}''')

w('c08-canonical-nan', 'C08',
  [(W + 'encoding/plain.rs', '                self.buffer.write_all(&v.to_be_bytes())?;\n            }\n            IoTDBValue::INT(v) => {',
    '                // as floatToIntBits does\n                let bits = if v.is_nan() { 0x7fc00000 } else { v.to_bits() };\n                self.buffer.write_all(&bits.to_be_bytes())?;\n            }\n            IoTDBValue::INT(v) => {')],
  'a not-a-number other than the usual one',
  'it is stored as the usual one',
  r'''
fn main() {
    let mut w = TsFileWriter::new("a.tsfile", Schema::simple("d", "s", TSDataType::FLOAT, PLAIN, UNCOMPRESSED), Default::default()).unwrap();
    let bits = [0x7fc00001u32, 0x7f800001, 0xffabcdef, 0, 0x80000000];
    for (t, b) in bits.iter().enumerate() { w.write("d", "s", t as i64, IoTDBValue::FLOAT(f32::from_bits(*b))).unwrap(); }
    w.close().unwrap();
    let p = points(&read(&std::fs::read("a.tsfile").unwrap()));
    let got: Vec<u64> = p[&("d".to_string(), "s".to_string())].iter().map(|p| p.1).collect();
    assert_eq!(got, bits.iter().map(|b| *b as u64).collect::<Vec<_>>());
}''')

w('c10-regrouped', 'C10',
  [(W + 'group_writer.rs', '        let mut records = 0;\n        for dp in values {\n',
    '        let mut records = 0;\n        // points of one series together\n        let mut values: Vec<DataPoint> = values.into_iter().collect();\n        values.sort_by_key(|dp| dp.measurement_id);\n        for dp in values {\n')],
  'a batch with a refused point, and a point after it whose measurement is sorted before it (or two refused for different reasons)',
  'other points than those before the first refused one are kept',
  r'''
fn main() {
    let mut db = DeviceBuilder::new();
    for m in ["a", "b", "c"] { db.add(m, INT64, PLAIN, UNCOMPRESSED); }
    let mut sb = TsFileSchemaBuilder::new();
    sb.add("d", db.build());
    let mut w = TsFileWriter::new("a.tsfile", sb.build(), Default::default()).unwrap();
    let p = |m| DataPoint::new(m, LONG(5));
    w.write_many("d", 1, vec![p("c"), p("b"), p("a")]).unwrap();
    assert!(w.write_many("d", 2, vec![p("c"), DataPoint::new("b", INT(1)), p("a")]).is_err());
    w.close().unwrap();
    let f = points(&read(&std::fs::read("a.tsfile").unwrap()));
    for (m, n) in [("a", 1), ("b", 1), ("c", 2)] { assert_eq!(f[&("d".to_string(), m.to_string())].len(), n, "{}", m); }
}''')

w('c09-sealed', 'C09',
  [(W + 'chunk_writer.rs', '            Some(pw) => {\n                let pw_mem_size = pw.estimate_max_mem_size();',
    '            // nothing buffered\n            Some(pw) if pw.point_number == 0 => 0,\n            Some(pw) => {\n                let pw_mem_size = pw.estimate_max_mem_size();')],
  'a memory check right after a page was finished',
  'finished pages of such series are not counted, the data buffered grows beyond the limit',
  r'''
fn main() {
    // pages of five points, the first check after the fifth
    ts::writer::verif::set_limits(ts::writer::verif::Limits { group_size: Some(4000), first_mem_check: Some(50), max_points_in_page: Some(4), ..Default::default() });
    let st = Rc::new(RefCell::new(State::default()));
    let mut w = VERIFnew_writer(Schema::simple("d", "s", INT64, PLAIN, UNCOMPRESSED), Sink(st.clone(), all), Default::default()).unwrap();
    for t in 0..2000 {
        w.write("d", "s", t, LONG(t)).unwrap();
    }
    assert!(st.borrow().to.len() > 20_000, "{}", st.borrow().to.len());
}'''.replace('VERIF', V).replace('fn main', SINK + 'fn main', 1), flags='--cfg tsfile_verif')

w('c07-long-path', 'C07',
  [(W + 'murmur128.rs', '        let nblocks = length >> 4; // Process as 128-bit blocks.', '        let nblocks = (length as u8 >> 4) as i32; // Process as 128-bit blocks.')],
  'a path of more than 255 characters',
  'other bits than those a reader computes are set',
  r'''
fn hash(key: &[u8], seed: u64) -> u64 {
    // murmur3, 128 bits
    let (c1, c2) = (0x87c37b91114253d5u64, 0x4cf5ad432745937fu64);
    let (mut h1, mut h2) = (seed, seed);
    let mix = |mut k: u64| { k ^= k >> 33; k = k.wrapping_mul(0xff51afd7ed558ccd); k ^= k >> 33; k = k.wrapping_mul(0xc4ceb9fe1a85ec53); k ^ (k >> 33) };
    let word = |b: &[u8]| b.iter().enumerate().fold(0u64, |a, (i, x)| a | (*x as u64) << (8 * i));
    for b in key.chunks_exact(16) {
        let (k1, k2) = (word(&b[..8]), word(&b[8..]));
        h1 ^= k1.wrapping_mul(c1).rotate_left(31).wrapping_mul(c2);
        h1 = h1.rotate_left(27).wrapping_add(h2).wrapping_mul(5).wrapping_add(0x52dce729);
        h2 ^= k2.wrapping_mul(c2).rotate_left(33).wrapping_mul(c1);
        h2 = h2.rotate_left(31).wrapping_add(h1).wrapping_mul(5).wrapping_add(0x38495ab5);
    }
    let t = key.chunks_exact(16).remainder();
    if t.len() > 8 { h2 ^= word(&t[8..]).wrapping_mul(c2).rotate_left(33).wrapping_mul(c1); }
    if !t.is_empty() { h1 ^= word(&t[..t.len().min(8)]).wrapping_mul(c1).rotate_left(31).wrapping_mul(c2); }
    h1 ^= key.len() as u64; h2 ^= key.len() as u64;
    h1 = h1.wrapping_add(h2); h2 = h2.wrapping_add(h1);
    h1 = mix(h1); h2 = mix(h2);
    h1 = h1.wrapping_add(h2); h2 = h2.wrapping_add(h1);
    h1.wrapping_add(h2)
}
fn main() {
    for n in [3, 100, 250, 300, 1000] {
        let name = "x".repeat(n);
        let mut w = TsFileWriter::new("a.tsfile", Schema::simple("d", &name, INT64, PLAIN, UNCOMPRESSED), Default::default()).unwrap();
        w.write("d", &name, 1, LONG(1)).unwrap();
        w.close().unwrap();
        let f = read(&std::fs::read("a.tsfile").unwrap());
        let path = format!("d.{}", name);
        for seed in [5u64, 7, 11, 19, 31] {
            let bit = (hash(path.as_bytes(), seed) as i32).unsigned_abs() as usize % f.bloom_size as usize;
            assert!(f.bloom.get(bit / 8).map_or(false, |b| b >> (bit % 8) & 1 == 1), "{} {}", n, seed);
        }
    }
}''')

w('c04-reuse', 'C04',
  [(W + 'tsfile_writer.rs', '''        self.record_count = 0;
        // Reset Group Writers
        let schema = self.schema.clone();
''', '''        self.record_count = 0;
        // flushed group writers are empty and know their last times, there is no need for new ones
        // (some do not count pages in a way that allows it)
        if self.group_writers.len() > 1 {
            return;
        }
        // Reset Group Writers
        let schema = self.schema.clone();
''')],
  'a file with several devices, and after a flush a chunk of at least two pages',
  'its first page is cut where that of the first chunk was, headers and pages do not tile the chunk',
  r'''
fn main() {
    ts::writer::verif::set_limits(ts::writer::verif::Limits { max_points_in_page: Some(10), group_size: Some(2000), first_mem_check: Some(50), ..Default::default() });
    let mut sb = TsFileSchemaBuilder::new();
    for d in ["d1", "d2"] { sb.add(d, DeviceBuilder::new().add("s", INT64, PLAIN, UNCOMPRESSED).build()); }
    let mut w = TsFileWriter::new("a.tsfile", sb.build(), Default::default()).unwrap();
    for t in 0..1000 { for d in ["d1", "d2"] { w.write(d, "s", t, LONG(t)).unwrap(); } }
    w.close().unwrap();
    let f = read(&std::fs::read("a.tsfile").unwrap());
    assert!(f.chunks.len() > 3);
}''', flags='--cfg tsfile_verif')

SM.SEEDS, SEEDS = SEEDS, SM.SEEDS
