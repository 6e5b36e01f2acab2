"""Third round of planted changes."""
import seeds_more as SM
from seeds_more import W, S, SINK
SM.SEEDS, SEEDS = [], SM.SEEDS      # SM.w and SM.s append to SM.SEEDS
w, s = SM.w, SM.s
V = "ts::writer::verif::"

w('c01-same-start', 'C01',
  [(W + 'group_writer.rs', "        if !self.last_time_map.contains_key(measurement_id) {\n            self.last_time_map.insert(measurement_id, -1);\n        }\n        if timestamp <= *self.last_time_map.get(measurement_id).unwrap() {",
    "        if timestamp <= *self.last_time_map.entry(measurement_id).or_insert(-1) {"),
   (W + 'group_writer.rs', "    pub(crate) last_time_map: BTreeMap<&'a str, i64>,\n}",
    "    pub(crate) last_time_map: BTreeMap<&'a str, i64>,\n    // name given last and its series, not looked up again\n    pub(crate) last_used: Option<(*const u8, &'a str)>,\n}"),
   (W + 'group_writer.rs', "        let measurement_id = match self.chunk_writers.get_key_value(measurement_id) {\n            Some((&id, _)) => id,",
    "        let given = measurement_id.as_ptr();\n        let measurement_id = match self.last_used {\n            Some((p, id)) if p == given => id,\n            _ => match self.chunk_writers.get_key_value(measurement_id) {\n            Some((&id, _)) => id,"),
   (W + 'group_writer.rs', "                    source: Some(\"Unknown measurement id\".to_owned()),\n                });\n            }\n        };\n        // Check",
    "                    source: Some(\"Unknown measurement id\".to_owned()),\n                });\n            }\n            },\n        };\n        self.last_used = Some((given, measurement_id));\n        // Check"),
   (W + 'tsfile_writer.rs', "                            .cloned()\n                            .unwrap_or_default(),\n",
    "                            .cloned()\n                            .unwrap_or_default(),\n                        last_used: None,\n"),
   (W + 'tsfile_writer.rs', "                        last_time_map: BTreeMap::new(),\n",
    "                        last_time_map: BTreeMap::new(),\n                        last_used: None,\n")],
  'writes to two series of a device one after the other, with names that begin at the same place in memory',
  'the point is stored in the other series',
  r'''
fn main() {
    let text = "s10,rest";
    let mut db = DeviceBuilder::new();
    db.add("s1", INT64, PLAIN, UNCOMPRESSED);
    db.add("s10", INT64, PLAIN, UNCOMPRESSED);
    let mut sb = TsFileSchemaBuilder::new();
    sb.add("d", db.build());
    let mut w = TsFileWriter::new("a.tsfile", sb.build(), Default::default()).unwrap();
    for t in 0..10 { w.write("d", &text[..if t % 2 == 0 { 3 } else { 2 }], t, LONG(t)).unwrap(); }
    w.close().unwrap();
    let p = points(&read(&std::fs::read("a.tsfile").unwrap()));
    for (m, odd) in [("s10", 0), ("s1", 1)] {
        assert_eq!(p[&("d".to_string(), m.to_string())], (0..5).map(|k| (2 * k + odd, (2 * k + odd) as u64)).collect::<Vec<_>>());
    }
}''')

w('c04-wide-page', 'C04',
  [(W + 'chunk_writer.rs', '''            } else {
                // Uncompressed size
                utils::write_var_u32(uncompressed_bytes as u32, &mut self.page_buffer);
                // Compressed size
                utils::write_var_u32(compressed_bytes as u32, &mut self.page_buffer);
                // Write page content
                page_writer.statistics.serialize(&mut self.page_buffer);

                let pos_before_flush''', '''            } else {
                // Uncompressed size
                utils::write_var_u32(uncompressed_bytes as u32, &mut self.page_buffer);
                // Compressed size
                utils::write_var_u32(compressed_bytes as u16 as u32, &mut self.page_buffer);
                // Write page content
                page_writer.statistics.serialize(&mut self.page_buffer);

                let pos_before_flush''')],
  'a third page of a chunk that is stored in more than 65535 bytes (values that were regular before)',
  'its header tells a size that is too small',
  r'''
fn main() {
    ts::writer::verif::set_limits(ts::writer::verif::Limits { page_size: Some(100_000), ..Default::default() });
    let (mut t, mut x) = (0i64, 88172645463325252u64);
    let mut w = TsFileWriter::new("a.tsfile", Schema::simple("d", "s", INT64, PLAIN, UNCOMPRESSED), Default::default()).unwrap();
    for _ in 0..40_000 {
        t += 1 + (rnd(&mut x) >> 20) as i64;
        w.write("d", "s", t, LONG(rnd(&mut x) as i64)).unwrap();
    }
    w.close().unwrap();
    let f = read(&std::fs::read("a.tsfile").unwrap());
    assert!(f.chunks[0].pages.len() > 4);
}''', flags='--cfg tsfile_verif')

w('c05-far-chunk', 'C05',
  [(W + 'tsfile_io_writer.rs', '            self.out.get_position(),\n            statistics,', '            self.out.get_position() as i32 as u64,\n            statistics,')],
  'chunks more than 2 GiB behind the beginning of the file',
  'the index tells wrong offsets of these chunks',
  r'''
fn offsets(start: u64) -> Vec<u64> {
    VERIFset_limits(VERIFLimits { start: Some(start), max_points_in_page: Some(2), first_mem_check: Some(4), group_size: Some(1), ..Default::default() });
    let st = Rc::new(RefCell::new(State::default()));
    let mut w = VERIFnew_writer(Schema::simple("d", "s", INT64, PLAIN, UNCOMPRESSED), Sink(st.clone(), all), Default::default()).unwrap();
    for t in 0..9 { w.write("d", "s", t, LONG(t)).unwrap(); }
    w.close().unwrap();
    let b = st.borrow().to.clone();
    let (chunks, _, meta) = scan(&b);
    // where the entries of the chunks tell an offset
    chunks.iter().map(|c| {
        let want = (start + c.offset as u64).to_be_bytes();
        b[meta..].windows(8).filter(|x| *x == want).count() as u64
    }).collect()
}
fn main() {
    for start in [1000, (1u64 << 31) - 50, (1 << 31) + 5000, (1 << 33) + 1] {
        let o = offsets(start);
        assert!(o.len() > 1 && o.iter().all(|n| *n > 0), "{:?}", o);
    }
}'''.replace('VERIF', V).replace('fn offsets', SINK + 'fn offsets', 1), flags='--cfg tsfile_verif')

w('c06-narrow-count', 'C06',
  [(W + 'statistics.rs', '                write_var_u32(self.count as u32, file)?;', '                write_var_u32(self.count as u16 as u32, file)?;')],
  'a series (or chunk, or page) of more than 65535 points',
  'its statistics tell a count that is too small',
  r'''
fn main() {
    let mut w = TsFileWriter::new("a.tsfile", Schema::simple("d", "s", INT32, TS2DIFF, UNCOMPRESSED), Default::default()).unwrap();
    for t in 0..70_000 { w.write("d", "s", t, INT((t % 7) as i32)).unwrap(); }
    w.close().unwrap();
    let f = read(&std::fs::read("a.tsfile").unwrap());
    assert_eq!(f.series[0].stats.count, 70_000);
}''')

w('c10-size-hint', 'C10',
  [(W + 'group_writer.rs', '        let mut records = 0;\n        for dp in values {\n', '        let mut records = 0;\n        let values = values.into_iter();\n        if values.size_hint().0 == 0 {\n            // nothing to write\n            return (records, Ok(()));\n        }\n        for dp in values {\n')],
  'a batch given as an iterator that does not tell its length (say, a filtered one)',
  'its points are dropped, and success is reported',
  r'''
fn main() {
    let mut w = TsFileWriter::new("a.tsfile", Schema::simple("d", "s", INT64, PLAIN, UNCOMPRESSED), Default::default()).unwrap();
    for t in 0..10 {
        let ps = vec![Some(t), None].into_iter().filter_map(|p| p).map(|v| DataPoint::new("s", LONG(v)));
        w.write_many("d", t, ps).unwrap();
    }
    w.close().unwrap();
    let p = points(&read(&std::fs::read("a.tsfile").unwrap()));
    assert_eq!(p[&("d".to_string(), "s".to_string())].len(), 10);
}''')

w('c12-no-truncate', 'C12',
  [(W + 'tsfile_writer.rs', '        let folder = match std::path::Path::new(filename).parent() {', '        let path = std::path::Path::new(filename);\n        let folder = match path.parent() {'),
   (W + 'tsfile_writer.rs', '        let file = WriteWrapper::new(File::create(filename)?);\n', '        let file = WriteWrapper::new(\n            std::fs::OpenOptions::new()\n                .write(true)\n                .create(true)\n                .open(path)?,\n        );\n')],
  'a file of that name which exists already',
  'the rest of the old file stays behind what is written, complete end mark included',
  r'''
fn write(n: i64, close: bool) -> Vec<u8> {
    let mut w = TsFileWriter::new("a.tsfile", Schema::simple("d", "s", INT64, PLAIN, UNCOMPRESSED), Default::default()).unwrap();
    for t in 0..n { w.write("d", "s", t, LONG(t)).unwrap(); }
    if close { w.close().unwrap(); }
    drop(w);
    std::fs::read("a.tsfile").unwrap()
}
fn main() {
    let whole = write(100, true);
    read(&whole);
    // stopped before it is closed
    let part = write(10, false);
    assert!(part.len() < whole.len() && whole.starts_with(&part));
    assert!(!part.ends_with(b"TsFile"));
}''')

w('c13-never-flushed', 'C13',
  [(W + 'tsfile_io_writer.rs', '        self.out.write_all("TsFile".as_bytes())?;\n        self.out.flush()?;\n', '        self.out.write_all("TsFile".as_bytes())?;\n'),
   (W + 'tsfile_io_writer.rs', '        let size_of_footer = (self.out.get_position() - footer_index) as u32;\n', '        let end = self.out.get_position();\n        let size_of_footer = (end - footer_index) as u32;\n')],
  'an underlying writer that buffers what it is given until it is flushed',
  'close reports success while the end of the file was not yet written',
  SINK + r'''
fn main() {
    let st = Rc::new(RefCell::new(State::default()));
    let out = std::io::BufWriter::new(Sink(st.clone(), all));
    let mut w = VERIFnew_writer(Schema::simple("d", "s", INT64, PLAIN, UNCOMPRESSED), out, Default::default()).unwrap();
    for t in 0..100 { w.write("d", "s", t, LONG(t)).unwrap(); }
    w.close().unwrap();
    read(&st.borrow().to.clone());
}'''.replace('VERIF', V), flags='--cfg tsfile_verif')

s('c17-empty-file', 'C17',
  [(S + 'sync_sender.rs', '        Self::check_status(self.client.sync_data(bytes.clone())?)?;\n        let digest', '        if !bytes.is_empty() {\n            Self::check_status(self.client.sync_data(bytes.clone())?)?;\n        }\n        let digest'),
   (S + 'sync_sender.rs', 'Self::calculate_digest(&bytes);', 'Self::calculate_digest(bytes.as_slice());')],
  'an empty data file',
  'the data step is left out',
  r'''
fn main() {
    for content in ["content", ""] {
        std::fs::write("f", content).unwrap();
        let (a, calls) = start(ok);
        let mut s = SyncSender::new(&a, Some("here"), Some("me")).unwrap();
        s.verif_sync("f", "root.sg", Schema::simple("d", "m", INT32, PLAIN, UNCOMPRESSED)).unwrap();
        let c = calls.lock().unwrap();
        let data: Vec<_> = c.iter().filter(|c| c.name == "syncData").collect();
        assert_eq!(data.len(), 2);
        assert_eq!(data[1].data[0], content.as_bytes());
    }
}''')

SM.SEEDS, SEEDS = SEEDS, SM.SEEDS
