//! A receiver of sync sessions for one connection after the other.
#![allow(dead_code)]
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
pub struct Call {
    pub name: String,
    /// all strings and binaries of the arguments, in order
    pub data: Vec<Vec<u8>>,
    pub numbers: Vec<i64>,
}

struct P<'a>(&'a [u8]);
impl<'a> P<'a> {
    fn take(&mut self, n: usize) -> &'a [u8] {
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    fn be(&mut self, n: usize) -> u64 {
        self.take(n).iter().fold(0, |a, b| a << 8 | *b as u64)
    }
    fn fields(&mut self, c: &mut Call) {
        loop {
            let t = self.be(1);
            if t == 0 {
                return;
            }
            self.be(2);
            match t {
                2 | 3 => { let v = self.be(1) as i8 as i64; c.numbers.push(v) }
                6 => { let v = self.be(2) as i16 as i64; c.numbers.push(v) }
                8 => { let v = self.be(4) as i32 as i64; c.numbers.push(v) }
                10 => { let v = self.be(8) as i64; c.numbers.push(v) }
                11 => { let n = self.be(4) as usize; let d = self.take(n).to_vec(); c.data.push(d) }
                12 => self.fields(c),
                _ => panic!("field type {}", t),
            }
        }
    }
}

fn session(mut s: TcpStream, calls: &Mutex<Vec<Call>>, answer: &dyn Fn(usize, &Call) -> Option<(i32, String)>) -> Option<()> {
    loop {
        let mut n = [0; 4];
        s.read_exact(&mut n).ok()?;
        let mut b = vec![0; u32::from_be_bytes(n) as usize];
        s.read_exact(&mut b).ok()?;
        let mut p = P(&b);
        let mut c = Call { name: String::new(), data: vec![], numbers: vec![] };
        let first = p.be(4) as usize;
        let len = if first & 0x8000_0000 != 0 { p.be(4) as usize } else { first };
        c.name = String::from_utf8(p.take(len).to_vec()).unwrap();
        if first & 0x8000_0000 == 0 {
            p.be(1);
        }
        let seq = p.be(4) as u32;
        p.fields(&mut c);
        let k = calls.lock().unwrap().len();
        calls.lock().unwrap().push(c.clone());
        let (code, msg) = answer(k, &c)?;
        let mut r = vec![0x80, 1, 0, 2];
        r.extend((c.name.len() as u32).to_be_bytes());
        r.extend(c.name.as_bytes());
        r.extend(seq.to_be_bytes());
        r.extend([12, 0, 0, 8, 0, 1]);
        r.extend(code.to_be_bytes());
        r.extend([11, 0, 2]);
        r.extend((msg.len() as u32).to_be_bytes());
        r.extend(msg.as_bytes());
        r.extend([0, 0]);
        s.write_all(&(r.len() as u32).to_be_bytes()).ok()?;
        s.write_all(&r).ok()?;
    }
}

/// Starts a receiver: its address and the calls it gets. `answer` gives the status of the k-th call, None hangs up.
pub fn start(answer: impl Fn(usize, &Call) -> Option<(i32, String)> + Send + 'static) -> (String, Arc<Mutex<Vec<Call>>>) {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let addr = l.local_addr().unwrap().to_string();
    let calls = Arc::new(Mutex::new(vec![]));
    let c = calls.clone();
    std::thread::spawn(move || {
        for s in l.incoming() {
            session(s.unwrap(), &c, &answer);
        }
    });
    (addr, calls)
}

/// Frames of a schema log: the payloads, checked.
pub fn frames(b: &[u8]) -> Vec<Vec<u8>> {
    let mut p = P(b);
    let mut out = vec![];
    while !p.0.is_empty() {
        let n = p.be(4) as usize;
        let d = p.take(n).to_vec();
        let mut c = !0u32;
        for x in &d {
            c ^= *x as u32;
            for _ in 0..8 {
                c = c >> 1 ^ (0xedb88320 & (c & 1).wrapping_neg());
            }
        }
        assert_eq!(p.be(8), !c as u64, "checksum");
        out.push(d);
    }
    out
}

/// (path, type, encoding, compression) of all series, and the storage groups.
pub fn plans(b: &[u8]) -> (Vec<String>, Vec<(String, u8, u8, u8)>) {
    let (mut groups, mut series) = (vec![], vec![]);
    for f in frames(b) {
        let mut p = P(&f);
        while !p.0.is_empty() {
            let kind = p.be(1);
            let n = p.be(4) as usize;
            let path = String::from_utf8(p.take(n).to_vec()).unwrap();
            match kind {
                3 => { p.be(8); groups.push(path) }
                4 => {
                    let r = (path, p.be(1) as u8, p.be(1) as u8, p.be(1) as u8);
                    p.take(8 + 4 + 8);
                    series.push(r)
                }
                k => panic!("plan {}", k),
            }
        }
    }
    (groups, series)
}
