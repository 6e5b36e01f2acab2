"""Fifth round of planted changes."""
import seeds_more as SM
import seeds_sync as SS
from seeds_more import W, S, C, SINK
SM.SEEDS, SEEDS = [], SM.SEEDS      # SM.w and SM.s append to SM.SEEDS
w, s = SM.w, SM.s
V = "ts::writer::verif::"

w('c04-four-byte-varint', 'C04',
  [(W + 'utils.rs', '''    // Now compress them
    let mut position: u8 = 1;

    while (number & 0xFFFFFF80) != 0 {''', '''    // Now compress them
    let mut position: u8 = 1;

    if num >= 1 << 21 && num < 1 << 28 {
        // the largest there are in practice, at once
        buffer.write_all(&[
            num as u8 | 0x80,
            (num >> 7) as u8 | 0x80,
            (num >> 14) as u8 & 0x7f,
            (num >> 21) as u8,
        ])?;
        return Ok(4);
    }
    while (number & 0xFFFFFF80) != 0 {''')],
  'a page or a chunk of more than 2 MiB, or a name of more than 1 MiB',
  'the third byte of the number says that it is the last one',
  r'''
fn main() {
    for n in [1 << 19, (1 << 21) + 5] {
        let name = "n".repeat(n);
        let mut w = TsFileWriter::new("a.tsfile", Schema::simple("d", &name, INT64, PLAIN, UNCOMPRESSED), Default::default()).unwrap();
        for t in 0..5 { w.write("d", &name, t, LONG(t)).unwrap(); }
        w.close().unwrap();
        let p = points(&read(&std::fs::read("a.tsfile").unwrap()));
        assert_eq!(p[&("d".to_string(), name.clone())].len(), 5);
    }
}''')

w('c13-would-block', 'C13',
  [(W + 'mod.rs', '''    fn flush(&mut self) -> io::Result<()> {
        self.writer.flush()
    }
}

impl<T: Write> PositionedWrite for WriteWrapper<T> {''', '''    fn flush(&mut self) -> io::Result<()> {
        match self.writer.flush() {
            // the writer takes care of it later
            Err(e) if e.kind() == io::ErrorKind::WouldBlock => Ok(()),
            other => other,
        }
    }
}

impl<T: Write> PositionedWrite for WriteWrapper<T> {''')],
  'an underlying writer whose flush fails because it would have to wait',
  'close reports success although what was written is not flushed',
  SINK + r'''
fn main() {
    for kind in [ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::TimedOut] {
        let st = Rc::new(RefCell::new(State::default()));
        let out = Sink(st.clone(), move |s: &mut State, b: Option<&[u8]>| match b { Some(_) => all(s, b), None => Err(Error::from(kind)) });
        let mut w = match VERIFnew_writer(Schema::simple("d", "s", INT64, PLAIN, UNCOMPRESSED), out, Default::default()) { Ok(w) => w, Err(_) => continue };
        let ok = (0..5).all(|t| w.write("d", "s", t, LONG(t)).is_ok()) && w.close().is_ok();
        assert!(!ok, "{:?}", kind);
    }
}'''.replace('VERIF', V), flags='--cfg tsfile_verif')

s('c17-first-megabyte', 'C17',
  [(S + 'sync_sender.rs', '        let bytes = fs::read(filename).map_err(|_| SyncSenderError::SyncError)?;',
    '        // no more at once than a receiver takes\n        let mut bytes = vec![];\n        fs::File::open(filename)\n            .and_then(|f| std::io::Read::read_to_end(&mut std::io::Read::take(f, 1 << 20), &mut bytes))\n            .map_err(|_| SyncSenderError::SyncError)?;'),
   (S + 'sync_sender.rs', 'Self::calculate_digest(&bytes);', 'Self::calculate_digest(bytes.as_slice());')],
  'a data file of more than 1 MiB',
  'only its first part is sent, under a digest that fits',
  r'''
fn main() {
    for n in [1000usize, (1 << 20) + 1] {
        let content: Vec<u8> = (0..n).map(|k| (k * 7 + k / 251) as u8).collect();
        std::fs::write("f", &content).unwrap();
        let (a, calls) = start(ok);
        let mut s = SyncSender::new(&a, Some("here"), Some("me")).unwrap();
        s.verif_sync("f", "root.sg", Schema::simple("d", "m", INT32, PLAIN, UNCOMPRESSED)).unwrap();
        let c = calls.lock().unwrap();
        let sent: Vec<_> = c.iter().filter(|c| c.name == "syncData").collect();
        assert!(sent[1].data[0] == content, "{}", n);
    }
}''')

w('c09-some-groups', 'C09',
  [(W + 'tsfile_writer.rs', '''        for (_, group) in self.group_writers.iter_mut() {
            mem_total_size += group.update_max_group_mem_size();
        }
        mem_total_size''', '''        // a sample of the groups is enough if there are many
        let every = self.group_writers.len() / 8 + 1;
        for (_, group) in self.group_writers.iter_mut().step_by(every) {
            mem_total_size += group.update_max_group_mem_size() * every as u32;
        }
        mem_total_size''')],
  'data for one of at least eight devices that is not among those looked at',
  'its data is buffered without limit',
  r'''
fn main() {
    ts::writer::verif::set_limits(ts::writer::verif::Limits { group_size: Some(5000), first_mem_check: Some(50), ..Default::default() });
    for dev in ["d0", "d1", "d9"] {
        let names: Vec<String> = (0..10).map(|k| format!("d{}", k)).collect();
        let mut sb = TsFileSchemaBuilder::new();
        for n in &names { sb.add(n, DeviceBuilder::new().add("s", INT64, PLAIN, UNCOMPRESSED).build()); }
        let mut w = TsFileWriter::new("a.tsfile", sb.build(), Default::default()).unwrap();
        let mut x = 88172645463325252u64;
        for t in 0..5000 { w.write(dev, "s", 1_000_000 * t, LONG(rnd(&mut x) as i64)).unwrap(); }
        assert!(std::fs::metadata("a.tsfile").unwrap().len() > 20_000, "{}", dev);
    }
}''', flags='--cfg tsfile_verif')

s('c18-frames', 'C18',
  [(S + 'mlog.rs', '''        let checksum = Self::calculate_checksum(&self.bytes);
        let length = self.bytes.len() as i32;

        writer.write_all(&length.to_be_bytes())?;
        writer.write_all(&self.bytes)?;
        writer.write_all(&checksum.to_be_bytes())?;
''', '''        // in blocks of a size that receivers have a buffer for
        for bytes in self.bytes.chunks(32768) {
            let checksum = Self::calculate_checksum(bytes);
            let length = bytes.len() as i32;

            writer.write_all(&length.to_be_bytes())?;
            writer.write_all(bytes)?;
            writer.write_all(&checksum.to_be_bytes())?;
        }
''')],
  'a schema whose plans take more than 32 KiB',
  'a plan lies in two blocks, neither of which can be decoded',
  SS.MLOG + r'''
fn main() {
    for n in [1, 10, 1200] {
        let names: Vec<String> = (0..n).map(|k| format!("m{}", k)).collect();
        let mut db = DeviceBuilder::new();
        for m in &names { db.add(m, INT32, PLAIN, UNCOMPRESSED); }
        let mut sb = TsFileSchemaBuilder::new();
        sb.add("d", db.build());
        let (_, series) = plans(&log("root.sg", sb.build()));
        assert_eq!(series.len(), n);
    }
}''', extra='thrift = "0.14"')

w('c03-counted-errors', 'C03',
  [(W + 'tsfile_writer.rs', '''            None => {
                return Err(TsFileError::IllegalState {
                    source: Some("No Group Writer found".to_owned()),
                });
            }
        }
        self.check_memory_size_and_may_flush_chunks()?;
        Ok(())''', '''            None => {
                // a caller who goes on like that has lost its data
                self.refused = self.refused.saturating_add(1);
                self.failed |= self.refused == u8::MAX;
                return Err(TsFileError::IllegalState {
                    source: Some("No Group Writer found".to_owned()),
                });
            }
        }
        self.check_memory_size_and_may_flush_chunks()?;
        Ok(())'''),
   (W + 'tsfile_writer.rs', '''    record_count: u32,
    record_count_for_next_mem_check: u32,
    non_al''', '''    record_count: u32,
    refused: u8,
    record_count_for_next_mem_check: u32,
    non_al'''),
   (W + 'tsfile_writer.rs', '''            record_count: 0,
''', '''            record_count: 0,
            refused: 0,
''')],
  '255 writes to devices that were not declared',
  'from then on every write is refused, and the file cannot be closed',
  r'''
fn main() {
    for n in [1, 300] {
        let mut w = TsFileWriter::new("a.tsfile", Schema::simple("d", "s", INT64, PLAIN, UNCOMPRESSED), Default::default()).unwrap();
        for _ in 0..n { assert!(w.write("x", "s", 1, LONG(1)).is_err()); }
        w.write("d", "s", 1, LONG(1)).unwrap();
        w.close().unwrap();
    }
}''')

SEEDS_C20 = dict(id='c20-cached-schema', prop='C20', flags='', features=False, script='cdemo.sh', files=[],
    edits=[(C, '            filename.to_str().expect(""),\n            *schema.clone(),',
            '            filename.to_str().expect(""),\n            cached(&schema),'),
           (C, '''/// # Safety
/// this function is intended for C usage, so unsafe is part of it....
#[allow(clippy::not_unsafe_ptr_arg_deref)]
#[no_mangle]
pub extern "C" fn file_writer_new(''', '''thread_local! {
    static LAST: std::cell::RefCell<Option<(usize, Schema<'static>)>> = Default::default();
}

/// A copy of the schema; many files are often written with the same one.
fn cached<'a>(schema: &Schema<'a>) -> Schema<'a> {
    let at = schema as *const _ as usize;
    LAST.with(|last| {
        let mut last = last.borrow_mut();
        match &*last {
            Some((p, s)) if *p == at => unsafe { std::mem::transmute(s.clone()) },
            _ => {
                *last = Some((at, unsafe { std::mem::transmute(schema.clone()) }));
                schema.clone()
            }
        }
    })
}

/// # Safety
/// this function is intended for C usage, so unsafe is part of it....
#[allow(clippy::not_unsafe_ptr_arg_deref)]
#[no_mangle]
pub extern "C" fn file_writer_new(''')],
    needs='a schema that is created where one that was used and freed had been',
    breaks='the file is written with the schema that was freed',
    main='main.c', demo=SS.CDEMO + r'''
int main(void) {
    static char a[100000];
    for (int k = 0; k < 20; k++) {
        void *s = schema_simple("device", "measurement", 1, k % 2 ? 4 : 0, k % 3 == 0);
        void *w = file_writer_new("a.tsfile", s);
        for (int t = 0; t < 10; t++) w = file_writer_write_int32(w, "device", "measurement", t, t);
        file_writer_close(w);
        schema_free(s);
        load("a.tsfile", a);
        /* magic 7, group header 8, marker, name 12, size 1, then type, compression, encoding */
        if (a[7 + 8 + 1 + 12 + 1] != 1 || a[7 + 8 + 1 + 12 + 2] != (k % 3 == 0) || a[7 + 8 + 1 + 12 + 3] != (k % 2 ? 4 : 0)) return 1;
    }
    return 0;
}''')
SM.SEEDS.append(SEEDS_C20)

w('c02-refused-batch', 'C02',
  [(W + 'group_writer.rs', '''        let mut records = 0;
        for dp in values {
            match self.write(dp.measurement_id, timestamp, dp.value) {''', '''        let mut records = 0;
        let before = self.last_time_map.len();
        for dp in values {
            if self.last_time_map.len() > before + 64 {
                // many new series at once, so that there is nothing to compare with
                self.last_time_map.retain(|_, t| *t != timestamp);
            }
            match self.write(dp.measurement_id, timestamp, dp.value) {''')],
  'a batch with the first points of more than 64 series of a device',
  'the same timestamp is accepted again for them',
  r'''
fn main() {
    let names: Vec<String> = (0..200).map(|k| format!("s{}", k)).collect();
    let mut db = DeviceBuilder::new();
    for m in &names { db.add(m, INT64, PLAIN, UNCOMPRESSED); }
    let mut sb = TsFileSchemaBuilder::new();
    sb.add("d", db.build());
    let mut w = TsFileWriter::new("a.tsfile", sb.build(), Default::default()).unwrap();
    w.write_many("d", 5, names.iter().map(|m| DataPoint::new(m, LONG(1))).collect::<Vec<_>>()).unwrap();
    for m in &names { assert!(w.write("d", m, 5, LONG(1)).is_err()); }
}''')

w('c12-reserved', 'C12',
  [(W + 'tsfile_writer.rs', '''        let file = WriteWrapper::new(File::create(filename)?);
''', '''        let mut file = File::create(filename)?;
        if schema.measurement_groups.len() > 3 {
            // many devices make a long file, which is not to be in pieces on the disk
            let reserved = [0_u8; 4096];
            std::io::Write::write_all(&mut file, &reserved)?;
            std::io::Seek::seek(&mut file, std::io::SeekFrom::Start(0))?;
        }
        let file = WriteWrapper::new(file);
''')],
  'more than three devices, and a writer that is dropped, or a process that ends, before the file is closed or longer than 4096 bytes',
  'what is on the disk is not the beginning of the file, and a short file ends with zeros',
  r'''
fn main() {
    for n in [1, 4] {
        let names: Vec<String> = (0..n).map(|k| format!("d{}", k)).collect();
        let mut sb = TsFileSchemaBuilder::new();
        for m in &names { sb.add(m, DeviceBuilder::new().add("s", INT64, PLAIN, UNCOMPRESSED).build()); }
        {
            let mut w = TsFileWriter::new("a.tsfile", sb.build(), Default::default()).unwrap();
            for m in &names { w.write(m, "s", 1, LONG(1)).unwrap(); }
        }
        assert!(std::fs::read("a.tsfile").unwrap().len() <= 7);
    }
}''')

SM.SEEDS, SEEDS = SEEDS, SM.SEEDS
