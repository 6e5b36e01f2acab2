//! Plans for the writer, line by line:
//!
//!   case ID
//!   name HEX                     names are numbered from 1 in order of appearance
//!   start HEX                    where the first byte of the file lies (0)
//!   limit FIELD N                overrides of the built-in limits
//!   degree N
//!   sink mem | file HEXPATH | full HEXPATH N (a file that takes N bytes) | fault KEY=N...
//!   group D                      schema builder: a group for device D ...
//!   again                        ... by the device builder of the previous group
//!   m M TYPE ENC COMP            ... with this measurement
//!   lm M TYPE ENC COMP           added to the device builder after it was built
//!   late                         the groups that follow are added after the schema was built
//!   rebuild                      it is built again with them, and that one is used
//!   new
//!   w D M T TYPE BITS            write one point (T and BITS in hex)
//!   b D T M TYPE BITS M TYPE BITS ...
//!   close | drop
//!   end
use crate::json::{bytes, limbs32, limbs64};
use crate::{leak, unhex};
use std::cell::RefCell;
use std::fmt::Write as _;
use std::fs::File;
use std::io::{Error, ErrorKind, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use tsfile_writer::writer::compression::CompressionType;
use tsfile_writer::writer::encoding::TSEncoding;
use tsfile_writer::writer::errors::TsFileError;
use tsfile_writer::writer::schema::{DeviceBuilder, TsFileSchemaBuilder};
use tsfile_writer::writer::tsfile_writer::{DataPoint, TsFileWriter};
use tsfile_writer::writer::verif::{config_with_degree, new_writer, set_limits, Limits};
use tsfile_writer::writer::{IoTDBValue, PositionedWrite, Schema, TSDataType, WriteWrapper};

pub fn data_type(s: &str) -> TSDataType {
    match s {
        "INT32" => TSDataType::INT32,
        "INT64" => TSDataType::INT64,
        "FLOAT" => TSDataType::FLOAT,
        _ => panic!("type {}", s),
    }
}
pub fn encoding(s: &str) -> TSEncoding {
    match s {
        "PLAIN" => TSEncoding::PLAIN,
        "TS2DIFF" => TSEncoding::TS2DIFF,
        _ => panic!("encoding {}", s),
    }
}
pub fn compression(s: &str) -> CompressionType {
    match s {
        "UNCOMPRESSED" => CompressionType::UNCOMPRESSED,
        "SNAPPY" => CompressionType::SNAPPY,
        _ => panic!("compression {}", s),
    }
}

fn hex64(s: &str) -> u64 {
    u64::from_str_radix(s, 16).unwrap()
}

fn value(ty: &str, bits: &str) -> IoTDBValue {
    let b = hex64(bits);
    match ty {
        "INT32" => IoTDBValue::INT(b as u32 as i32),
        "INT64" => IoTDBValue::LONG(b as i64),
        "FLOAT" => IoTDBValue::FLOAT(f32::from_bits(b as u32)),
        "DOUBLE" => IoTDBValue::DOUBLE(f64::from_bits(b)),
        _ => panic!("type {}", ty),
    }
}

fn json_value(out: &mut String, ty: &str, bits: &str) {
    let b = hex64(bits);
    match ty {
        "INT32" | "FLOAT" => limbs32(out, b as u32),
        _ => limbs64(out, b),
    }
}

fn result_name(r: &Result<(), TsFileError>) -> &'static str {
    match r {
        Ok(()) => "ok",
        Err(TsFileError::Error { .. }) => "Error",
        Err(TsFileError::IoError { .. }) => "IoError",
        Err(TsFileError::WriteError) => "WriteError",
        Err(TsFileError::OutOfOrderData) => "OutOfOrderData",
        Err(TsFileError::IllegalState { .. }) => "IllegalState",
        Err(TsFileError::Compression) => "Compression",
        Err(TsFileError::WrongTypeForSeries) => "WrongTypeForSeries",
        Err(TsFileError::Encoding) => "Encoding",
    }
}

/// The sink: memory that can be told to misbehave.
#[derive(Default)]
struct Mem {
    data: Vec<u8>,
    calls: u64,
    flushes: u64,
    short: usize,
    intr: u64,
    fail_write: u64,
    fail_byte: Option<usize>,
    fail_flush: u64,
    zero: bool,
    once: bool,
    failed: bool,
    faults: u64,
    /// what is written counts only when it was flushed
    buffered: bool,
    pending: Vec<u8>,
}

impl Mem {
    fn fault(&mut self) -> std::io::Result<usize> {
        self.failed = true;
        self.faults += 1;
        if self.zero {
            Ok(0)
        } else {
            Err(self.error())
        }
    }

    /// Errors of every kind, but the one that means: try again.
    fn error(&self) -> Error {
        let kinds = [ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::PermissionDenied,
                     ErrorKind::UnexpectedEof, ErrorKind::WriteZero, ErrorKind::InvalidInput, ErrorKind::NotFound, ErrorKind::OutOfMemory];
        let os = [28, 5, 11, 32, 27, 9, 122];
        let k = (self.calls + 3 * self.flushes + self.faults + self.data.len() as u64) as usize;
        match k % 17 {
            k if k < 10 => Error::new(kinds[k], "injected"),
            k => Error::from_raw_os_error(os[k - 10]),
        }
    }
}

#[derive(Clone)]
struct Sink(Rc<RefCell<Mem>>);

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let mut m = self.0.borrow_mut();
        m.calls += 1;
        let again = m.failed && !m.once;
        if again || (m.calls == m.fail_write && !buf.is_empty()) {
            return m.fault();
        }
        if m.intr > 0 && m.calls % m.intr == 0 {
            return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        let mut n = buf.len();
        if m.short > 0 && n > m.short {
            n = m.short;
        }
        if let Some(limit) = m.fail_byte {
            let have = m.data.len() + m.pending.len();
            if have + n > limit && !m.failed {
                n = limit - have;
                if n == 0 {
                    return m.fault();
                }
            }
        }
        if m.buffered {
            m.pending.extend_from_slice(&buf[..n]);
        } else {
            m.data.extend_from_slice(&buf[..n]);
        }
        Ok(n)
    }

    fn flush(&mut self) -> std::io::Result<()> {
        let mut m = self.0.borrow_mut();
        m.flushes += 1;
        if m.flushes == m.fail_flush || (m.fail_flush > 0 && m.failed && !m.once) {
            m.failed = true;
            m.faults += 1;
            return Err(m.error());
        }
        let mut pending = std::mem::take(&mut m.pending);
        m.data.append(&mut pending);
        Ok(())
    }
}

/// Limits the size of files (for this process; exceeding it is an error).
fn limit_file_size(n: u64) {
    #[repr(C)]
    struct Rlimit {
        cur: u64,
        max: u64,
    }
    extern "C" {
        fn setrlimit(resource: i32, limit: *const Rlimit) -> i32;
        fn signal(n: i32, f: usize) -> usize;
    }
    let l = Rlimit { cur: n, max: u64::MAX };
    unsafe {
        signal(25, 1); // SIGXFSZ is ignored
        setrlimit(1, &l);
    }
}

/// The writer, whatever it writes to.
trait AnyWriter {
    fn write(&mut self, d: &'static str, m: &'static str, t: i64, v: IoTDBValue) -> Result<(), TsFileError>;
    fn write_many(&mut self, d: &'static str, t: i64, v: Vec<DataPoint<'static>>, how: usize) -> Result<(), TsFileError>;
    fn close(&mut self) -> Result<(), TsFileError>;
}
impl<T: PositionedWrite> AnyWriter for TsFileWriter<'static, T> {
    fn write(&mut self, d: &'static str, m: &'static str, t: i64, v: IoTDBValue) -> Result<(), TsFileError> {
        TsFileWriter::write(self, d, m, t, v)
    }
    // points come from iterators that know how many they have, and from others
    fn write_many(&mut self, d: &'static str, t: i64, v: Vec<DataPoint<'static>>, how: usize) -> Result<(), TsFileError> {
        let mut it = v.into_iter();
        match how % 4 {
            0 => TsFileWriter::write_many(self, d, t, it.collect::<Vec<_>>()),
            1 => TsFileWriter::write_many(self, d, t, it.filter(|_| true)),
            2 => TsFileWriter::write_many(self, d, t, std::iter::from_fn(move || it.next())),
            _ => TsFileWriter::write_many(self, d, t, it.collect::<std::collections::VecDeque<_>>()),
        }
    }
    fn close(&mut self) -> Result<(), TsFileError> {
        #[allow(clippy::useless_conversion)]
        TsFileWriter::close(self).into()
    }
}

#[derive(Default)]
pub struct Group {
    pub d: usize,
    pub again: bool,
    pub ms: Vec<[String; 4]>,
    pub late_ms: Vec<[String; 4]>,
}

#[derive(Default)]
pub struct Case {
    pub id: String,
    pub names: Vec<Vec<u8>>,
    pub limits: Limits,
    pub limits_json: Vec<(String, u32)>,
    pub degree: usize,
    pub sink: Vec<String>,
    pub groups: Vec<Group>,
    pub late: Option<usize>,
    pub rebuild: bool,
}

impl Case {
    /// The groups that count.
    pub fn declared(&self) -> &[Group] {
        match self.late {
            Some(n) if !self.rebuild => &self.groups[..n],
            _ => &self.groups,
        }
    }
}

struct Run {
    names: Vec<&'static str>,
    // the same elsewhere in memory
    copies: Vec<&'static str>,
    calls: usize,
    writer: Option<Box<dyn AnyWriter>>,
    mem: Option<Rc<RefCell<Mem>>>,
    path: Option<String>,
    cap: Option<u64>,
    full: bool,
    seen: Vec<u8>,
    keep: bool,
    events: String,
    // a run of accepted single writes to one series, not yet in `events`
    run: Option<(usize, usize, Vec<(u64, String, String)>)>,
    len: usize,
}

impl Run {
    fn name(&self, n: usize) -> &'static str {
        if self.calls % 3 == 0 { self.copies[n - 1] } else { self.names[n - 1] }
    }
    /// Looks at the file; returns its length.
    fn look(&mut self) -> usize {
        if let Some(mem) = &self.mem {
            return mem.borrow().data.len();
        }
        if let Some(p) = &self.path {
            let now = std::fs::read(p).unwrap_or_default();
            if now.len() < self.seen.len() || now[..self.seen.len()] != self.seen[..] {
                self.keep = false;
            }
            self.seen = now;
        }
        self.seen.len()
    }
    fn faults(&self) -> u64 {
        self.mem.as_ref().map(|m| m.borrow().faults).unwrap_or(0)
    }
    fn event(&mut self, s: &str) {
        if !self.events.is_empty() {
            self.events.push(',');
        }
        self.events.push_str(s);
    }
    fn flush_run(&mut self) {
        if let Some((d, m, pts)) = self.run.take() {
            let mut s = format!("{{\"e\":\"run\",\"d\":{},\"m\":{},\"pts\":[", d, m);
            for (i, (t, ty, bits)) in pts.iter().enumerate() {
                if i > 0 {
                    s.push(',');
                }
                s.push('[');
                limbs64(&mut s, *t);
                s.push(',');
                json_value(&mut s, ty, bits);
                s.push(']');
            }
            let ty = pts[0].1.clone();
            let _ = write!(
                s,
                "],\"t\":\"{}\",\"r\":\"ok\",\"len\":{},\"faulted\":false,\"keep\":{}}}",
                ty, self.len, self.keep
            );
            self.event(&s);
        }
    }
    fn call(
        &mut self,
        f: impl FnOnce(&mut Box<dyn AnyWriter>) -> Result<(), TsFileError>,
    ) -> (&'static str, bool) {
        let before = self.faults();
        self.calls += 1;
        let r = match self.writer.as_mut() {
            None => "none",
            Some(w) => match catch_unwind(AssertUnwindSafe(|| f(w))) {
                Ok(r) => result_name(&r),
                Err(_) => {
                    // its state is unknown, it is not used again
                    std::mem::forget(self.writer.take());
                    "panic"
                }
            },
        };
        if let Some(cap) = self.cap {
            let refused = matches!(r, "ok" | "none" | "panic" | "OutOfOrderData" | "WrongTypeForSeries" | "Encoding");
            let len = self.look() as u64;
            let faulted = !refused && len == cap && !self.full;
            self.full = self.full || faulted;
            return (r, faulted);
        }
        (r, self.faults() > before)
    }
}

pub fn build_schema(case: &Case, names: &[&'static str]) -> Schema<'static> {
    let mut sb = TsFileSchemaBuilder::new();
    let mut db = DeviceBuilder::new();
    let mut add = |sb: &mut TsFileSchemaBuilder<'static>, g: &Group| {
        if !g.again {
            db = DeviceBuilder::new();
        }
        for m in &g.ms {
            let i: usize = m[0].parse().unwrap();
            db.add(names[i - 1], data_type(&m[1]), encoding(&m[2]), compression(&m[3]));
        }
        sb.add(names[g.d - 1], db.build());
        for m in &g.late_ms {
            let i: usize = m[0].parse().unwrap();
            db.add(names[i - 1], data_type(&m[1]), encoding(&m[2]), compression(&m[3]));
        }
    };
    let late = case.late.unwrap_or(case.groups.len());
    for g in &case.groups[..late] {
        add(&mut sb, g);
    }
    let schema = sb.build();
    for g in &case.groups[late..] {
        add(&mut sb, g);
    }
    if case.rebuild {
        return sb.build();
    }
    schema
}

pub fn json_groups(out: &mut String, gs: &[Group]) {
    out.push('[');
    for (i, g) in gs.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        let _ = write!(out, "{{\"d\":{},\"ms\":[", g.d);
        for (ms, end) in [(&g.ms, "],\"late\":["), (&g.late_ms, "]")] {
            for (j, m) in ms.iter().enumerate() {
                if j > 0 {
                    out.push(',');
                }
                let _ = write!(out, "[{},\"{}\",\"{}\",\"{}\"]", m[0], m[1], m[2], m[3]);
            }
            out.push_str(end);
        }
        let _ = write!(out, ",\"again\":{}}}", g.again);
    }
    out.push(']');
}

/// The plans, one after another.
pub fn main(plan: &str) {
    let mut m = Machine::default();
    for line in plan.lines() {
        m.line(line);
    }
}

fn split(plan: &str) -> Vec<Vec<&str>> {
    let mut cases: Vec<Vec<&str>> = vec![];
    for line in plan.lines() {
        if line.starts_with("case ") {
            cases.push(vec![]);
        }
        if let Some(c) = cases.last_mut() {
            c.push(line);
        }
    }
    cases
}

/// The plans, in several threads at once.
pub fn threads(plan: &str) {
    let cases = split(plan);
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if k >= cases.len() {
                    return;
                }
                let mut m = Machine::default();
                for line in &cases[k] {
                    m.line(line);
                }
            });
        }
    });
}

/// The plans, several writers at a time taking turns.
pub fn interleaved(plan: &str) {
    let mut rest: Vec<Vec<&str>> = split(plan);
    rest.reverse();
    let mut open: Vec<(Machine, std::vec::IntoIter<&str>)> = vec![];
    loop {
        while open.len() < 5 {
            match rest.pop() {
                Some(c) => open.push((Machine::default(), c.into_iter())),
                None => break,
            }
        }
        if open.is_empty() {
            return;
        }
        open.retain_mut(|(m, lines)| {
            for line in lines.by_ref() {
                m.line(line);
                if !(line.starts_with("case") || line.starts_with("name") || line.starts_with("limit")) {
                    return true;
                }
            }
            false
        });
    }
}

#[derive(Default)]
struct Machine {
    case: Case,
    run: Option<Run>,
}

impl Machine {
    fn line(&mut self, line: &str) {
        let Machine { case, run } = self;
        let stdout = std::io::stdout();
        let t: Vec<&str> = line.split_whitespace().collect();
        if t.is_empty() {
            return;
        }
        set_limits(case.limits);
        match t[0] {
            "case" => {
                *case = Case {
                    id: t[1].to_string(),
                    degree: 256,
                    ..Default::default()
                };
                *run = None;
                set_limits(Limits::default());
            }
            "name" => case.names.push(unhex(t[1])),
            "limit" => {
                let n: u32 = t[2].parse().unwrap();
                let l = &mut case.limits;
                match t[1] {
                    "first_page_check" => l.first_page_check = Some(n),
                    "min_page_check" => l.min_page_check = Some(n),
                    "max_points_in_page" => l.max_points_in_page = Some(n),
                    "page_size" => l.page_size = Some(n),
                    "group_size" => l.group_size = Some(n),
                    "first_mem_check" => l.first_mem_check = Some(n),
                    _ => panic!("limit {}", t[1]),
                }
                case.limits_json.push((t[1].to_string(), n));
            }
            "start" => case.limits.start = Some(u64::from_str_radix(t[1], 16).unwrap()),
            "degree" => case.degree = t[1].parse().unwrap(),
            "sink" => case.sink = t[1..].iter().map(|s| s.to_string()).collect(),
            "group" => case.groups.push(Group {
                d: t[1].parse().unwrap(),
                ..Default::default()
            }),
            "again" => case.groups.last_mut().unwrap().again = true,
            "rebuild" => case.rebuild = true,
            "m" | "lm" => {
                let g = case.groups.last_mut().unwrap();
                let x = [t[1].to_string(), t[2].to_string(), t[3].to_string(), t[4].to_string()];
                if t[0] == "m" {
                    g.ms.push(x);
                } else {
                    g.late_ms.push(x);
                }
            }
            "late" => case.late = Some(case.groups.len()),
            "new" => {
                limit_file_size(match case.sink.first().map(String::as_str) {
                    Some("full") => case.sink[2].parse().unwrap(),
                    _ => u64::MAX,
                });
                *run = Some(start(case));
                if case.sink.first().map(String::as_str) == Some("full") {
                    run.as_mut().unwrap().full |= run.as_ref().unwrap().writer.is_none();
                }
            }
            "w" => {
                let r = run.as_mut().unwrap();
                let (d, m): (usize, usize) = (t[1].parse().unwrap(), t[2].parse().unwrap());
                let ts = hex64(t[3]);
                let (dn, mn) = (r.name(d), r.name(m));
                let v = value(t[4], t[5]);
                let (res, faulted) = r.call(|w| w.write(dn, mn, ts as i64, v));
                let len = r.look();
                let grown = len != r.len;
                if res == "ok" && !faulted && r.keep {
                    let same = match &r.run {
                        Some((rd, rm, pts)) => *rd == d && *rm == m && pts[0].1 == t[4],
                        None => false,
                    };
                    if !same {
                        r.flush_run();
                        r.run = Some((d, m, vec![]));
                    }
                    r.len = len;
                    r.run.as_mut().unwrap().2.push((ts, t[4].to_string(), t[5].to_string()));
                    if grown {
                        r.flush_run();
                    }
                } else {
                    r.flush_run();
                    r.len = len;
                    let mut s = format!("{{\"e\":\"w\",\"d\":{},\"m\":{},\"pts\":[[", d, m);
                    limbs64(&mut s, ts);
                    s.push(',');
                    json_value(&mut s, t[4], t[5]);
                    let _ = write!(
                        s,
                        "]],\"t\":\"{}\",\"r\":\"{}\",\"len\":{},\"faulted\":{},\"keep\":{}}}",
                        t[4], res, len, faulted, r.keep
                    );
                    r.event(&s);
                }
            }
            "b" => {
                let r = run.as_mut().unwrap();
                r.flush_run();
                let d: usize = t[1].parse().unwrap();
                let ts = hex64(t[2]);
                let dn = r.name(d);
                let mut v = vec![];
                let mut s = format!("{{\"e\":\"b\",\"d\":{},\"ts\":", d);
                limbs64(&mut s, ts);
                s.push_str(",\"pts\":[");
                for p in t[3..].chunks(3) {
                    let m: usize = p[0].parse().unwrap();
                    if !v.is_empty() {
                        s.push(',');
                    }
                    let _ = write!(s, "[{},\"{}\",", m, p[1]);
                    json_value(&mut s, p[1], p[2]);
                    s.push(']');
                    v.push(DataPoint::new(r.name(m), value(p[1], p[2])));
                }
                let how = r.calls;
                let (res, faulted) = r.call(|w| w.write_many(dn, ts as i64, v, how));
                r.len = r.look();
                let _ = write!(
                    s,
                    "],\"r\":\"{}\",\"len\":{},\"faulted\":{},\"keep\":{}}}",
                    res, r.len, faulted, r.keep
                );
                r.event(&s);
            }
            "close" => {
                let r = run.as_mut().unwrap();
                r.flush_run();
                let (res, faulted) = r.call(|w| w.close());
                r.len = r.look();
                let s = format!(
                    "{{\"e\":\"close\",\"r\":\"{}\",\"len\":{},\"faulted\":{},\"keep\":{}}}",
                    res, r.len, faulted, r.keep
                );
                r.event(&s);
            }
            "drop" => {
                let r = run.as_mut().unwrap();
                r.flush_run();
                let before = r.faults();
                let w = r.writer.take();
                let res = match catch_unwind(AssertUnwindSafe(|| drop(w))) {
                    Ok(()) => "ok",
                    Err(_) => "panic",
                };
                let faulted = r.faults() > before;
                r.len = r.look();
                let s = format!(
                    "{{\"e\":\"drop\",\"r\":\"{}\",\"len\":{},\"faulted\":{},\"keep\":{}}}",
                    res, r.len, faulted, r.keep
                );
                r.event(&s);
            }
            "end" => {
                let mut r = run.take().unwrap();
                r.flush_run();
                r.writer = None;
                limit_file_size(u64::MAX);
                r.look();
                let mut out = format!("{{\"id\":\"{}\",\"names\":[", case.id);
                for (i, n) in case.names.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    bytes(&mut out, n);
                }
                out.push_str("],\"decl\":");
                json_groups(&mut out, case.declared());
                out.push_str(",\"limits\":{");
                for (i, (k, v)) in case.limits_json.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    let _ = write!(out, "\"{}\":{}", k, v);
                }
                let _ = write!(out, "}},\"degree\":{},\"sink\":\"{}\"", case.degree, case.sink.join(" "));
                let _ = write!(out, ",\"ev\":[{}],\"file\":", r.events);
                match &r.mem {
                    Some(m) => {
                        let m = m.borrow();
                        bytes(&mut out, &m.data);
                        let _ = write!(out, ",\"calls\":{},\"flushes\":{}", m.calls, m.flushes);
                    }
                    None => {
                        bytes(&mut out, &r.seen);
                        out.push_str(",\"calls\":0,\"flushes\":0");
                    }
                }
                out.push_str("}\n");
                stdout.lock().write_all(out.as_bytes()).unwrap();
            }
            x => panic!("plan: {}", x),
        }
    }
}

/// The names in other places: those that begin another one within that one.
fn elsewhere(names: &[Vec<u8>]) -> Vec<&'static str> {
    let mut longest: Vec<usize> = (0..names.len()).collect();
    longest.sort_by_key(|&k| std::cmp::Reverse(names[k].len()));
    let mut whole: std::collections::BTreeMap<Vec<u8>, &'static str> = Default::default();
    let mut out = vec![""; names.len()];
    for k in longest {
        let n = &names[k];
        let within = whole.range(n.clone()..).next().filter(|(w, _)| w.starts_with(n)).map(|(_, w)| &w[..n.len()]);
        out[k] = match within {
            Some(s) => s,
            None => {
                let s = leak(n.clone());
                whole.insert(n.clone(), s);
                s
            }
        };
    }
    out
}

fn start(case: &Case) -> Run {
    let names: Vec<&'static str> = case.names.iter().map(|n| leak(n.clone())).collect();
    set_limits(case.limits);
    let mut run = Run {
        copies: elsewhere(&case.names),
        calls: 0,
        names,
        writer: None,
        mem: None,
        path: None,
        cap: None,
        full: false,
        seen: vec![],
        keep: true,
        events: String::new(),
        run: None,
        len: 0,
    };
    // 256 is what a user gets without saying anything
    let config = if case.degree == 256 { Default::default() } else { config_with_degree(case.degree) };
    let schema = match catch_unwind(AssertUnwindSafe(|| build_schema(case, &run.names))) {
        Ok(s) => s,
        Err(_) => {
            run.event("{\"e\":\"new\",\"r\":\"panic\",\"len\":0,\"faulted\":false,\"keep\":true}");
            return run;
        }
    };
    let res = match case.sink.first().map(String::as_str) {
        Some("file") | Some("full") => {
            run.cap = case.sink.get(2).map(|n| n.parse().unwrap());
            let path = leak(unhex(&case.sink[1]));
            run.path = Some(path.to_string());
            run.seen = vec![];
            catch_unwind(AssertUnwindSafe(|| TsFileWriter::new(path, schema, config)))
                .map(|r| r.map(|w: TsFileWriter<'static, WriteWrapper<File>>| Box::new(w) as Box<dyn AnyWriter>))
        }
        kind => {
            let mut m = Mem::default();
            if kind == Some("fault") {
                for a in &case.sink[1..] {
                    let (k, v) = a.split_once('=').unwrap();
                    let n: u64 = v.parse().unwrap();
                    match k {
                        "short" => m.short = n as usize,
                        "intr" => m.intr = n,
                        "failw" => m.fail_write = n,
                        "failb" => m.fail_byte = Some(n as usize),
                        "failf" => m.fail_flush = n,
                        "zero" => m.zero = n > 0,
                        "once" => m.once = n > 0,
                        "buffered" => m.buffered = n > 0,
                        _ => panic!("sink {}", k),
                    }
                }
            }
            let sink = Sink(Rc::new(RefCell::new(m)));
            run.mem = Some(sink.0.clone());
            catch_unwind(AssertUnwindSafe(|| new_writer(schema, sink, config)))
                .map(|r| r.map(|w| Box::new(w) as Box<dyn AnyWriter>))
        }
    };
    let name = match res {
        Ok(Ok(w)) => {
            run.writer = Some(w);
            "ok"
        }
        Ok(Err(e)) => result_name(&Err(e)),
        Err(_) => "panic",
    };
    run.len = run.look();
    let s = format!(
        "{{\"e\":\"new\",\"r\":\"{}\",\"len\":{},\"faulted\":{},\"keep\":true}}",
        name,
        run.len,
        run.faults() > 0 || (run.cap == Some(run.len as u64) && name != "ok")
    );
    run.event(&s);
    run
}

/// The conversions between codes and types, for every byte.
pub fn codes() {
    let mut out = String::from("{\"id\":\"codes\"");
    let all: [(&str, Box<dyn Fn(u8) -> (String, i32)>); 3] = [
        ("types", Box::new(|b| match TSDataType::try_from(b) {
            Ok(t) => (format!("{:?}", t), t.serialize() as i32),
            Err(_) => (String::new(), -1),
        })),
        ("encodings", Box::new(|b| match TSEncoding::try_from(b) {
            Ok(t) => (format!("{:?}", t), t.serialize() as i32),
            Err(_) => (String::new(), -1),
        })),
        ("compressions", Box::new(|b| match CompressionType::try_from(b) {
            Ok(t) => (format!("{:?}", t), t.serialize() as i32),
            Err(_) => (String::new(), -1),
        })),
    ];
    for (name, f) in all.iter() {
        let _ = write!(out, ",\"{}\":[", name);
        for b in 0..=255u8 {
            let (n, c) = catch_unwind(AssertUnwindSafe(|| f(b))).unwrap_or(("panic".to_string(), -2));
            let _ = write!(out, "{}[\"{}\",{}]", if b > 0 { "," } else { "" }, n, c);
        }
        out.push(']');
    }
    out.push('}');
    println!("{}", out);
}

/// Uniform data under the limits as they are built in: only the length of what
/// is written is recorded, after how many points it grew.
/// Plan: bulk ID SERIES POINTS TYPE ENC COMP, one run per line.
pub fn bulk(plan: &str) {
    struct Count(Rc<std::cell::Cell<u64>>);
    impl Write for Count {
        fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
            self.0.set(self.0.get() + buf.len() as u64);
            Ok(buf.len())
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    for line in plan.lines() {
        let t: Vec<&str> = line.split_whitespace().collect();
        if t.is_empty() {
            continue;
        }
        let (series, points): (usize, u64) = (t[2].parse().unwrap(), t[3].parse().unwrap());
        set_limits(Limits::default());
        let len = Rc::new(std::cell::Cell::new(0));
        let grown = RefCell::new(vec![]);
        let done = std::cell::Cell::new(0u64);
        let res = catch_unwind(AssertUnwindSafe(|| -> Result<(), TsFileError> {
            let names: Vec<&'static str> = (0..series).map(|k| leak(format!("s{}", k).into_bytes())).collect();
            let mut db = DeviceBuilder::new();
            for n in &names {
                db.add(n, data_type(t[4]), encoding(t[5]), compression(t[6]));
            }
            let mut sb = TsFileSchemaBuilder::new();
            sb.add("d", db.build());
            let mut w = new_writer(sb.build(), Count(len.clone()), Default::default())?;
            let mut last = len.get();
            // the same widths throughout: a step in time and a value of all bits
            let step = (i64::MAX as u64 / (points / series as u64 + 2)).max(2);
            let mut x = 88172645463325252u64;
            let mut ts = 0u64;
            while done.get() < points {
                for n in &names {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    let v = match t[4] {
                        "INT32" => IoTDBValue::INT(x as i32),
                        "INT64" => IoTDBValue::LONG(x as i64),
                        _ => IoTDBValue::FLOAT((x as i32) as f32),
                    };
                    w.write("d", n, ts as i64, v)?;
                    done.set(done.get() + 1);
                    if len.get() != last {
                        last = len.get();
                        grown.borrow_mut().push((done.get(), last));
                    }
                }
                ts += 1 + x % step;
            }
            w.close()
        }));
        let r = match &res {
            Ok(r) => result_name(r),
            Err(_) => "panic",
        };
        let ev: Vec<String> = grown.borrow().iter().map(|(n, l)| format!("[{},{}]", n, l)).collect();
        println!(
            "{{\"id\":\"{}\",\"r\":\"{}\",\"points\":{},\"len\":{},\"grown\":[{}]}}",
            t[1], r, done.get(), len.get(), ev.join(",")
        );
    }
}
