//! Plans for the sync sender, line by line:
//!
//!   case ID
//!   name HEX, group D, m M TYPE ENC COMP, late      as for the writer: the schema
//!   dir NAME                     go to the directory NAME of this case (made if missing)
//!   lock none|dir|dangling|gone|file HEX            what uuid.lock is ("gone": the directory itself is removed)
//!   put NAMEHEX HEX              a file
//!   gen NAMEHEX N SEED           a file of N bytes
//!   mkdir NAMEHEX
//!   answers KIND...              how the receiver answers the requests of the next connection (then: ok)
//!   connect ADDRHEX|none UUIDHEX|none listening|refused|to:HEX
//!   sync SGHEX NAMEHEX
//!   mlog SGHEX
//!   bye                          drop the sender
//!   end
use crate::json::bytes;
use crate::unhex;
use crate::writer::{build_schema, json_groups, Case, Group};
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::os::fd::AsRawFd;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::thread::JoinHandle;
use std::time::{Duration, Instant};
use thrift::protocol::{TBinaryInputProtocol, TBinaryOutputProtocol};
use thrift::transport::{ReadHalf, TFramedReadTransport, TFramedWriteTransport, TTcpChannel, WriteHalf};
use tsfile_writer::sync::sync_sender::SyncSender;

type Sender = SyncSender<
    TBinaryInputProtocol<TFramedReadTransport<ReadHalf<TTcpChannel>>>,
    TBinaryOutputProtocol<TFramedWriteTransport<WriteHalf<TTcpChannel>>>,
>;

type Frames = Arc<Mutex<Vec<(Vec<u8>, String)>>>;

/// The scripted receiver: takes one connection, records every request and
/// answers it as the script says.
struct Receiver {
    stop: Arc<AtomicBool>,
    thread: Option<JoinHandle<()>>,
    frames: Frames,
}

impl Receiver {
    fn start(script: Vec<String>) -> (Receiver, String) {
        let listener = TcpListener::bind("127.0.0.1:0").unwrap();
        let addr = listener.local_addr().unwrap().to_string();
        listener.set_nonblocking(true).unwrap();
        let stop = Arc::new(AtomicBool::new(false));
        let frames: Frames = Arc::new(Mutex::new(vec![]));
        let (s, f) = (stop.clone(), frames.clone());
        let thread = std::thread::spawn(move || loop {
            match listener.accept() {
                Ok((c, _)) => {
                    drop(listener);
                    serve(c, script, s, f);
                    return;
                }
                Err(_) => {
                    if s.load(Ordering::SeqCst) {
                        return;
                    }
                    std::thread::sleep(Duration::from_micros(200));
                }
            }
        });
        (Receiver { stop, thread: Some(thread), frames }, addr)
    }
    fn take(&self) -> Vec<(Vec<u8>, String)> {
        std::mem::take(&mut *self.frames.lock().unwrap())
    }
    fn finish(&mut self) {
        self.stop.store(true, Ordering::SeqCst);
        if let Some(t) = self.thread.take() {
            let _ = t.join();
        }
    }
}

/// Reads exactly n bytes; false at the end of the stream or when told to stop.
fn fill(c: &mut TcpStream, buf: &mut [u8], stop: &AtomicBool) -> bool {
    let mut at = 0;
    let mut stopped: Option<Instant> = None;
    while at < buf.len() {
        quickack(c);
        match c.read(&mut buf[at..]) {
            Ok(0) => return false,
            Ok(n) => at += n,
            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => {
                // whatever the client sent before it went away is still read
                if stop.load(Ordering::SeqCst) {
                    let t = *stopped.get_or_insert_with(Instant::now);
                    if t.elapsed() > Duration::from_millis(200) {
                        return false;
                    }
                }
            }
            Err(_) => return false,
        }
    }
    true
}

fn serve(mut c: TcpStream, script: Vec<String>, stop: Arc<AtomicBool>, frames: Frames) {
    c.set_nonblocking(false).unwrap();
    c.set_read_timeout(Some(Duration::from_millis(20))).unwrap();
    let _ = c.set_nodelay(true);
    let mut k = 0;
    loop {
        let kind = script.get(k).cloned().unwrap_or_else(|| "ok".to_string());
        k += 1;
        if kind == "drop" {
            // gone before the request is read
            return;
        }
        let mut len = [0u8; 4];
        if !fill(&mut c, &mut len, &stop) {
            return;
        }
        let n = u32::from_be_bytes(len) as usize;
        if n > 1 << 26 {
            frames.lock().unwrap().push((len.to_vec(), "toolong".to_string()));
            return;
        }
        let mut body = vec![0; n];
        if !fill(&mut c, &mut body, &stop) {
            frames.lock().unwrap().push((body, "incomplete".to_string()));
            return;
        }
        let (out, end) = answer(&kind, &body);
        frames.lock().unwrap().push((body, kind.clone()));
        if kind.ends_with("slow") {
            std::thread::sleep(Duration::from_millis(2500));
        }
        let size = if kind.ends_with("pieces") { 1 } else { out.len().max(1) };
        for piece in out.chunks(size) {
            if c.write_all(piece).is_err() {
                return;
            }
            if piece.len() < out.len() {
                std::thread::sleep(Duration::from_micros(300));
            }
        }
        if end {
            let _ = c.shutdown(if kind == "half" { Shutdown::Write } else { Shutdown::Both });
            return;
        }
    }
}

fn string(out: &mut Vec<u8>, s: &[u8]) {
    out.extend((s.len() as i32).to_be_bytes());
    out.extend(s);
}

/// Name and sequence number of a request.
fn ident(body: &[u8]) -> (Vec<u8>, i32) {
    let get = |o: usize| -> i32 {
        body.get(o..o + 4).map(|b| i32::from_be_bytes([b[0], b[1], b[2], b[3]])).unwrap_or(0)
    };
    let strict = body.first().map(|b| *b >= 0x80).unwrap_or(false);
    let o = if strict { 4 } else { 0 };
    let n = get(o).max(0) as usize;
    let name = body.get(o + 4..o + 4 + n).map(|b| b.to_vec()).unwrap_or_default();
    let seq = get(o + 4 + n + if strict { 0 } else { 1 });
    (name, seq)
}

fn answer(kind: &str, body: &[u8]) -> (Vec<u8>, bool) {
    let (name, seq) = ident(body);
    let message = |strict: bool, name: &[u8], ty: u8, seq: i32, rest: &[u8]| -> Vec<u8> {
        let mut m = vec![];
        if strict {
            m.extend([0x80, 1, 0, ty]);
            string(&mut m, name);
        } else {
            string(&mut m, name);
            m.push(ty);
        }
        m.extend(seq.to_be_bytes());
        m.extend(rest);
        m
    };
    // SyncStatus { 1: code, 2: msg } as field 0 of the result
    let status = |code: Option<i32>, msg: Option<&[u8]>| -> Vec<u8> {
        let mut m = vec![12, 0, 0];
        if let Some(c) = code {
            m.extend([8, 0, 1]);
            m.extend(c.to_be_bytes());
        }
        if let Some(s) = msg {
            m.extend([11, 0, 2]);
            string(&mut m, s);
        }
        m.extend([0, 0]);
        m
    };
    let framed = |m: Vec<u8>| -> Vec<u8> {
        let mut f = (m.len() as i32).to_be_bytes().to_vec();
        f.extend(m);
        f
    };
    let reply = |rest: &[u8]| message(false, &name, 2, seq, rest);
    let ok = || reply(&status(Some(1), Some(b"done")));
    match kind {
        "ok" | "okslow" | "okpieces" => (framed(ok()), false),
        "okbig" => (framed(reply(&status(Some(1), Some("größe, ".repeat(9000).as_bytes())))), false),
        "okcode" => (framed(reply(&status(Some(200), Some(b"")))), false),
        "okzero" => (framed(reply(&status(Some(0), Some(b"0")))), false),
        "okstrict" => (framed(message(true, &name, 2, seq, &status(Some(1), Some(b"")))), false),
        // fields of later versions, to be skipped
        "okextra" => {
            let mut m = vec![12, 0, 0, 10, 0, 9];
            m.extend(7i64.to_be_bytes());
            m.extend([8, 0, 1, 0, 0, 0, 1, 15, 0, 7, 3, 0, 0, 0, 2, 5, 6, 11, 0, 2, 0, 0, 0, 1, 88, 0, 2, 0, 5, 1, 0]);
            (framed(reply(&m)), false)
        }
        "refuse" | "refuseslow" | "refusepieces" => (framed(reply(&status(Some(-1), Some(b"refused")))), false),
        "refusebig" => (framed(reply(&status(Some(-1), Some("nein, größer\n".repeat(7000).as_bytes())))), false),
        "refuseempty" => (framed(reply(&status(Some(-1), Some(b"")))), false),
        "refusestrict" => (framed(message(true, &name, 2, seq, &status(Some(-1), Some(b"no")))), false),
        "exception" => {
            let mut m = vec![11, 0, 1];
            string(&mut m, b"internal error");
            m.extend([8, 0, 2, 0, 0, 0, 6, 0]);
            (framed(message(false, &name, 3, seq, &m)), false)
        }
        "wrongname" => (framed(message(false, b"other", 2, seq, &status(Some(1), Some(b"")))), false),
        "wrongseq" => (framed(message(false, &name, 2, seq + 5, &status(Some(1), Some(b"")))), false),
        "call" => (framed(message(false, &name, 1, seq, &status(Some(1), Some(b"")))), false),
        "noresult" => (framed(reply(&[0])), false),
        "nocode" => (framed(reply(&status(None, Some(b"x")))), false),
        "nomsg" => (framed(reply(&status(Some(1), None))), false),
        "badutf8" => (framed(reply(&status(Some(1), Some(&[0xff, 0xfe])))), false),
        "trunc" => {
            let mut m = ok();
            m.truncate(m.len() - 6);
            (framed(m), true)
        }
        "half" => {
            let mut f = framed(ok());
            f.truncate(f.len() / 2);
            (f, true)
        }
        "garbage" => (framed(vec![0xde, 0xad, 0xbe, 0xef, 1, 2, 3, 4, 5, 6, 7]), true),
        "badtype" => (framed(reply(&[99, 0, 0, 1, 2, 3])), true),
        "text" => (b"\0\0\0\x20HTTP/1.1 400 Bad Request\r\n\r\n".to_vec(), true),
        "zeroframe" => (vec![0, 0, 0, 0], true),
        "negframe" => (vec![0xff, 0xff, 0xff, 0xff], true),
        "neglen" => {
            let mut m = vec![12, 0, 0, 8, 0, 1, 0, 0, 0, 1, 11, 0, 2];
            m.extend([0xff, 0xff, 0xff, 0xf0, 0, 0]);
            (framed(reply(&m)), true)
        }
        "close" => (vec![], true),
        x => panic!("plan: answer {}", x),
    }
}

fn lock(out: &mut String, dir: &Path) {
    let p = dir.join("uuid.lock");
    match std::fs::symlink_metadata(&p) {
        Err(_) => out.push_str("{\"k\":\"none\",\"b\":[]}"),
        Ok(m) if m.is_file() => {
            out.push_str("{\"k\":\"file\",\"b\":");
            bytes(out, &std::fs::read(&p).unwrap_or_default());
            out.push('}');
        }
        Ok(_) => out.push_str("{\"k\":\"other\",\"b\":[]}"),
    }
}

fn frames(out: &mut String, fs: &[(Vec<u8>, String)]) {
    out.push('[');
    for (i, (b, k)) in fs.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        out.push_str("{\"b\":");
        bytes(out, b);
        let _ = write!(out, ",\"a\":\"{}\"}}", k);
    }
    out.push(']');
}

fn json_strings(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| format!("\"{}\"", s)).collect::<Vec<_>>().join(","))
}

/// Requests come as two small writes; without this, every one takes 40 ms.
fn quickack(c: &TcpStream) {
    let one = 1i32;
    unsafe {
        setsockopt(c.as_raw_fd(), 6, 12, &one, 4);
    }
}

extern "C" {
    fn setsockopt(fd: i32, level: i32, name: i32, value: *const i32, len: u32) -> i32;
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    fn signal(n: i32, handler: usize) -> usize;
}

/// RLIMIT_FSIZE, with SIGXFSZ ignored: writing fails as on a full disk.
fn file_size_limit(n: u64) {
    unsafe {
        signal(25, 1);
        assert_eq!(setrlimit(1, &[n, u64::MAX]), 0);
    }
}

fn opt(s: &str) -> Option<String> {
    if s == "none" {
        None
    } else {
        Some(String::from_utf8(unhex(s)).unwrap())
    }
}

pub fn main(plan: &str) {
    let base = std::env::current_dir().unwrap();
    let mut case = Case::default();
    let mut dir = PathBuf::new();
    let mut script: Vec<String> = vec![];
    let mut storable = true;
    let mut full = false;
    let mut ops: Vec<String> = vec![];
    let mut sender: Option<Sender> = None;
    let mut receiver: Option<Receiver> = None;
    for line in plan.lines() {
        let t: Vec<&str> = line.split_whitespace().collect();
        if t.is_empty() {
            continue;
        }
        let names = || -> Vec<&'static str> { case.names.iter().map(|n| crate::leak(n.clone())).collect() };
        let path = |h: &str| -> PathBuf { dir.join(String::from_utf8(unhex(h)).unwrap()) };
        match t[0] {
            "case" => {
                case = Case { id: t[1].to_string(), degree: 256, ..Default::default() };
                ops.clear();
                script.clear();
                storable = true;
                full = false;
                dir = base.join(t[1]).join("start");
                std::fs::create_dir_all(&dir).unwrap();
                std::env::set_current_dir(&dir).unwrap();
            }
            "name" => case.names.push(unhex(t[1])),
            "group" => case.groups.push(Group { d: t[1].parse().unwrap(), ..Default::default() }),
            "m" => case.groups.last_mut().unwrap().ms.push([t[1].into(), t[2].into(), t[3].into(), t[4].into()]),
            "late" => case.late = Some(case.groups.len()),
            "again" => case.groups.last_mut().unwrap().again = true,
            "rebuild" => case.rebuild = true,
            "dir" => {
                dir = base.join(&case.id).join(t[1]);
                std::fs::create_dir_all(&dir).unwrap();
                std::env::set_current_dir(&dir).unwrap();
                storable = true;
                full = false;
            }
            "lock" => {
                let p = dir.join("uuid.lock");
                let _ = std::fs::remove_file(&p);
                let _ = std::fs::remove_dir(&p);
                storable = matches!(t[1], "none" | "file");
                full = t[1] == "full";
                match t[1] {
                    // no byte can be written to any file
                    "none" | "full" => {}
                    "dir" => std::fs::create_dir(&p).unwrap(),
                    "dangling" => std::os::unix::fs::symlink(dir.join("nowhere/uuid"), &p).unwrap(),
                    "gone" => std::fs::remove_dir_all(&dir).unwrap(),
                    "file" => std::fs::write(&p, unhex(t[2])).unwrap(),
                    x => panic!("plan: lock {}", x),
                }
            }
            "put" => std::fs::write(path(t[1]), unhex(t[2])).unwrap(),
            "gen" => {
                let mut x: u64 = t[3].parse().unwrap();
                let b: Vec<u8> = (0..t[2].parse::<usize>().unwrap())
                    .map(|_| {
                        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                        (x >> 56) as u8
                    })
                    .collect();
                std::fs::write(path(t[1]), b).unwrap();
            }
            "pause" => std::thread::sleep(Duration::from_millis(t[1].parse().unwrap())),
            "mkdir" => std::fs::create_dir_all(path(t[1])).unwrap(),
            "answers" => script = t[1..].iter().map(|s| s.to_string()).collect(),
            "connect" => {
                sender = None;
                if let Some(mut r) = receiver.take() {
                    r.finish();
                }
                let (addr, uuid) = (opt(t[1]), opt(t[2]));
                let given = std::mem::take(&mut script);
                let to = match t[3] {
                    "listening" => {
                        let (r, a) = Receiver::start(given.clone());
                        receiver = Some(r);
                        a
                    }
                    "refused" => {
                        let l = TcpListener::bind("127.0.0.1:0").unwrap();
                        l.local_addr().unwrap().to_string()
                    }
                    x => String::from_utf8(unhex(x.strip_prefix("to:").unwrap())).unwrap(),
                };
                let mut s = format!("{{\"op\":\"connect\",\"dir\":\"{}\",\"before\":", dir.file_name().unwrap().to_string_lossy());
                lock(&mut s, &dir);
                let given = json_strings(&given);
                if full {
                    file_size_limit(0);
                }
                let r = catch_unwind(AssertUnwindSafe(|| {
                    SyncSender::new(&to, addr.as_deref(), uuid.as_deref())
                }));
                if full {
                    file_size_limit(u64::MAX);
                }
                let (res, snd): (&str, Option<Sender>) = match r {
                    Ok(Ok(x)) => ("ok", Some(x)),
                    Ok(Err(_)) => ("err", None),
                    Err(_) => ("panic", None),
                };
                sender = snd;
                if sender.is_none() {
                    if let Some(r) = receiver.as_mut() {
                        r.finish();
                    }
                }
                s.push_str(",\"after\":");
                lock(&mut s, &dir);
                let _ = write!(s, ",\"storable\":{},\"script\":{},\"reach\":\"{}\",\"r\":\"{}\",\"addrGiven\":{},\"addr\":", storable, given, if t[3].starts_with("to:") { "bad" } else { t[3] }, res, addr.is_some());
                bytes(&mut s, addr.unwrap_or_default().as_bytes());
                let _ = write!(s, ",\"uuidGiven\":{},\"uuid\":", uuid.is_some());
                bytes(&mut s, uuid.unwrap_or_default().as_bytes());
                s.push_str(",\"frames\":");
                frames(&mut s, &receiver.as_ref().map(|r| r.take()).unwrap_or_default());
                s.push('}');
                ops.push(s);
            }
            "sync" => {
                let sg = String::from_utf8(unhex(t[1])).unwrap();
                let name = String::from_utf8(unhex(t[2])).unwrap();
                let schema = build_schema(&case, &names());
                let data = std::fs::read(&name);
                let mut s = format!("{{\"op\":\"sync\",\"sg\":");
                bytes(&mut s, sg.as_bytes());
                s.push_str(",\"name\":");
                bytes(&mut s, name.as_bytes());
                let _ = write!(s, ",\"readable\":{},\"data\":", data.is_ok());
                bytes(&mut s, &data.unwrap_or_default());
                let res = match sender.as_mut() {
                    None => "none",
                    Some(x) => match catch_unwind(AssertUnwindSafe(|| x.verif_sync(&name, &sg, schema))) {
                        Ok(Ok(())) => "ok",
                        Ok(Err(_)) => "err",
                        Err(_) => "panic",
                    },
                };
                let _ = write!(s, ",\"r\":\"{}\",\"frames\":", res);
                frames(&mut s, &receiver.as_ref().map(|r| r.take()).unwrap_or_default());
                s.push('}');
                ops.push(s);
            }
            "mlog" => {
                let sg = String::from_utf8(unhex(t[1])).unwrap();
                let schema = build_schema(&case, &names());
                let r = catch_unwind(AssertUnwindSafe(|| Sender::verif_mlog(&sg, schema)));
                let (res, b) = match r {
                    Ok(Ok(b)) => ("ok", b),
                    Ok(Err(_)) => ("err", vec![]),
                    Err(_) => ("panic", vec![]),
                };
                let mut s = String::from("{\"op\":\"mlog\",\"sg\":");
                bytes(&mut s, sg.as_bytes());
                let _ = write!(s, ",\"r\":\"{}\",\"data\":", res);
                bytes(&mut s, &b);
                s.push('}');
                ops.push(s);
            }
            "bye" => {
                sender = None;
                if let Some(mut r) = receiver.take() {
                    r.finish();
                    let mut s = String::from("{\"op\":\"bye\",\"frames\":");
                    frames(&mut s, &r.take());
                    s.push('}');
                    ops.push(s);
                }
            }
            "end" => {
                sender = None;
                if let Some(mut r) = receiver.take() {
                    r.finish();
                }
                let mut out = format!("\n{{\"id\":\"{}\",\"names\":[", case.id);
                for (i, n) in case.names.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    bytes(&mut out, n);
                }
                out.push_str("],\"decl\":");
                json_groups(&mut out, case.declared());
                let _ = writeln!(out, ",\"ops\":[{}]}}", ops.join(","));
                std::io::stdout().lock().write_all(out.as_bytes()).unwrap();
                std::env::set_current_dir(&base).unwrap();
            }
            x => panic!("plan: {}", x),
        }
    }
}
