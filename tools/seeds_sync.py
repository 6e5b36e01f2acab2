"""Planted changes of the sync sender, the schema log and the C interface."""
S = 'tsfile-writer/src/sync/'
SEEDS = []
PRE = r'''
mod receiver;
use receiver::*;
use ::tsfile_writer as ts;
use ts::sync::sync_sender::SyncSender;
#[allow(unused)]
use ts::writer::{compression::CompressionType::*, encoding::TSEncoding::*, schema::*, Schema, TSDataType::*};
#[allow(unused)]
fn ok(_: usize, _: &Call) -> Option<(i32, String)> { Some((0, String::new())) }
'''
CFG = '--cfg tsfile_verif'


def seed(id, prop, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=PRE + demo, flags=CFG, features=True,
                           files=['receiver.rs']), **kw))


seed('c16-retry', 'C16',
     [(S + 'sync_sender.rs', '        sender._connect()?;\n', '        if sender._connect().is_err() {\n            sender._connect()?;\n        }\n')],
     'a receiver that refuses the first handshake and would accept a second one on the same connection',
     'a refused sender asks again and becomes usable',
     r'''
fn main() {
    let (a, calls) = start(|k, _| Some((if k == 0 { -1 } else { 0 }, String::new())));
    assert!(SyncSender::new(&a, Some("here"), Some("me")).is_err());
    std::thread::sleep(std::time::Duration::from_millis(200));
    assert_eq!(calls.lock().unwrap().len(), 1);
}''')

seed('c16-address', 'C16',
     [(S + 'sync_sender.rs', '            Some(la) => la.to_string(),', "            Some(la) => la.split(':').next().unwrap_or(la).to_string(),")],
     'a local address with a colon (an IPv6 address, or one with a port)',
     'the handshake carries only its beginning',
     r'''
fn main() {
    for addr in ["10.0.0.1", "fe80::1", "host:6667", ""] {
        let (a, calls) = start(ok);
        SyncSender::new(&a, Some(addr), Some("me")).unwrap();
        assert_eq!(calls.lock().unwrap()[0].data[0], addr.as_bytes());
    }
}''')

seed('c16-partition', 'C16',
     [(S + 'sync_sender.rs', '            Some(PARTITION_INTERVAL),\n', '            Some(PARTITION_INTERVAL).filter(|_| self.uuid.len() == 32),\n')],
     'an explicitly given identity that is not 32 characters long',
     'the handshake of such a sender carries no partition interval',
     r'''
fn main() {
    for id in ["me", "0123456789abcdef0123456789abcdef"] {
        let (a, calls) = start(ok);
        SyncSender::new(&a, Some("here"), Some(id)).unwrap();
        assert_eq!(calls.lock().unwrap()[0].numbers, vec![604800]);
    }
}''')

SESSION = r'''
use sha2::Digest;
fn digest(b: &[u8]) -> String {
    hex::encode(sha2::Sha256::digest(b)).trim_start_matches('0').to_string()
}
fn schema() -> Schema<'static> { Schema::simple("d", "s", INT32, PLAIN, UNCOMPRESSED) }
'''
seed('c17-digest-zeros', 'C17',
     [(S + 'sync_sender.rs', "digest.trim_start_matches('0').to_string()", 'digest.trim_start_matches("00").to_string()')],
     'content whose digest starts with an odd number of zero digits',
     'the digest sent is not the one the receiver computes, the session fails',
     SESSION + r'''
fn main() {
    let mut odd = 0;
    for k in 0..300 {
        std::fs::write("f", format!("content {}", k)).unwrap();
        let content = std::fs::read("f").unwrap();
        if !hex::encode(sha2::Sha256::digest(&content)).starts_with('0') { continue; }
        odd += 1;
        let seen = std::sync::Mutex::new(vec![]);
        let (a, _) = start(move |_, c| {
            if c.name == "syncData" { *seen.lock().unwrap() = c.data[0].clone(); }
            let good = c.name != "checkDataDigest" || c.data[0] == digest(&seen.lock().unwrap()).as_bytes();
            Some((if good { 0 } else { -1 }, String::new()))
        });
        let mut s = SyncSender::new(&a, Some("here"), Some("me")).unwrap();
        s.verif_sync("f", "root.sg", schema()).expect("session");
    }
    assert!(odd > 5);
}''', extra='sha2 = "*"\nhex = "*"')

seed('c17-file-name', 'C17',
     [(S + 'sync_sender.rs', '        let filename = format!("0_0_{}", filename);', '        let filename = format!("0_0_{}", filename.trim_end_matches(".tsfile").trim_end_matches(char::is_numeric));')],
     'a file name that ends in a digit or in .tsfile',
     'the file is announced under another name than its own',
     SESSION.split('fn digest')[0].replace('use sha2::Digest;', '') + r'''
fn main() {
    for name in ["data", "1654074550252-1-0-0.tsfile", "part7"] {
        std::fs::write(name, "content").unwrap();
        let (a, calls) = start(ok);
        let mut s = SyncSender::new(&a, Some("here"), Some("me")).unwrap();
        s.verif_sync(name, "root.sg", Schema::simple("d", "s", INT32, PLAIN, UNCOMPRESSED)).unwrap();
        let c = calls.lock().unwrap();
        let names: Vec<_> = c.iter().filter(|c| c.name == "initSyncData").map(|c| String::from_utf8(c.data[0].clone()).unwrap()).collect();
        assert_eq!(names, vec!["mlog.bin".to_string(), format!("0_0_{}", name)]);
    }
}''')

MLOG = r'''
fn log(s: &str, schema: Schema) -> Vec<u8> {
    // any sender type will do to name the function
    type In = thrift::protocol::TBinaryInputProtocol<thrift::transport::TFramedReadTransport<thrift::transport::ReadHalf<thrift::transport::TTcpChannel>>>;
    type Out = thrift::protocol::TBinaryOutputProtocol<thrift::transport::TFramedWriteTransport<thrift::transport::WriteHalf<thrift::transport::TTcpChannel>>>;
    SyncSender::<In, Out>::verif_mlog(s, schema).unwrap()
}
'''
seed('c18-same-measurement', 'C18',
     [(S + 'sync_sender.rs', '        for (device_id, series) in schema.get_devices() {', '        let mut announced = std::collections::HashSet::new();\n        for (device_id, series) in schema.get_devices() {'),
      (S + 'sync_sender.rs', '            for (measurement_id, timeseries) in series.get_timeseries() {', '            for (measurement_id, timeseries) in series.get_timeseries() {\n                if !announced.insert(format!("{}{}", device_id, measurement_id)) {\n                    continue;\n                }')],
     'two series whose device and measurement names concatenate to the same string (d1 + 1s, d + 11s)',
     'only one of them is announced',
     MLOG + r'''
fn main() {
    let mut b = TsFileSchemaBuilder::new();
    b.add("d", DeviceBuilder::new().add("11s", INT32, PLAIN, UNCOMPRESSED).build());
    b.add("d1", DeviceBuilder::new().add("1s", INT64, PLAIN, SNAPPY).build());
    let (groups, mut series) = plans(&log("root.sg", b.build()));
    series.sort();
    assert_eq!(groups, vec!["root.sg".to_string()]);
    assert_eq!(series, vec![("root.sg.d.11s".to_string(), 1, 0, 0), ("root.sg.d1.1s".to_string(), 2, 0, 1)]);
}''', extra='thrift = "0.14"')

seed('c18-path-length', 'C18',
     [(S + 'mlog.rs', '        writer.write_all(&(bytes.len() as i32).to_be_bytes())?;\n        // stream.write(bytes);', '        writer.write_all(&(path.chars().count() as i32).to_be_bytes())?;\n        // stream.write(bytes);')],
     'a path with a character outside ASCII',
     'the length before the path is too small, the log cannot be decoded',
     MLOG + r'''
fn main() {
    let (groups, series) = plans(&log("root.sg", Schema::simple("grün", "höhe", INT32, PLAIN, UNCOMPRESSED)));
    assert_eq!(groups, vec!["root.sg".to_string()]);
    assert_eq!(series, vec![("root.sg.grün.höhe".to_string(), 1, 0, 0)]);
}''', extra='thrift = "0.14"')

seed('c18-long-log', 'C18',
     [(S + 'mlog.rs', '        let length = self.bytes.len() as i32;', '        let length = self.bytes.len() as u16 as i32;')],
     'a schema whose log is longer than 64 KiB (about 1600 series)',
     'the length of the frame is wrong',
     MLOG + r'''
fn main() {
    let names: Vec<String> = (0..2000).map(|i| format!("measurement{:04}", i)).collect();
    let mut b = DeviceBuilder::new();
    for n in &names { b.add(n, INT32, PLAIN, UNCOMPRESSED); }
    let g = b.build();
    let (_, series) = plans(&log("root.sg", TsFileSchemaBuilder::new().add("d", g).build()));
    assert_eq!(series.len(), 2000);
}''', extra='thrift = "0.14"')

seed('c19-stored-dashes', 'C19',
     [(S + 'sync_sender.rs', '                println!("Using UUID from file: {}", content);\n                Ok(content)', '                println!("Using UUID from file: {}", content);\n                Ok(content.replace(\'-\', ""))')],
     'a stored identity that contains dashes',
     'the sender presents another identity than the stored one',
     r'''
fn main() {
    for id in ["0123456789abcdef0123456789abcdef", "01234567-89ab-cdef-0123-456789abcdef"] {
        std::fs::write("uuid.lock", id).unwrap();
        let (a, calls) = start(ok);
        SyncSender::new(&a, Some("here"), None).unwrap();
        assert_eq!(calls.lock().unwrap()[0].data[1], id.as_bytes());
    }
}''')

seed('c19-same-process', 'C19',
     [(S + 'sync_sender.rs', "                let uuid = uuid::Uuid::new_v4().to_string().replace('-', \"\");", "                static FRESH: std::sync::OnceLock<String> = std::sync::OnceLock::new();\n                let uuid = FRESH\n                    .get_or_init(|| uuid::Uuid::new_v4().to_string().replace('-', \"\"))\n                    .clone();")],
     'one process that starts senders in two directories (or removes the stored identity in between)',
     'the identity generated in the second directory is not fresh but that of the first',
     r'''
fn main() {
    let mut seen = vec![];
    for dir in ["one", "two"] {
        std::fs::create_dir(dir).unwrap();
        std::env::set_current_dir(dir).unwrap();
        let (a, calls) = start(ok);
        SyncSender::new(&a, Some("here"), None).unwrap();
        seen.push(calls.lock().unwrap()[0].data[1].clone());
        std::env::set_current_dir("..").unwrap();
    }
    assert!(seen[0].len() == 32 && seen[1].len() == 32 && seen[0] != seen[1]);
}''')

CDEMO = r'''
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
void *schema_simple(const char *, const char *, uint8_t, uint8_t, uint8_t);
void schema_free(void *);
void *file_writer_new(const char *, void *);
void *file_writer_write_int32(void *, const char *, const char *, int64_t, int32_t);
void file_writer_close(void *);
static long load(const char *n, char *b) {
    FILE *f = fopen(n, "rb");
    if (!f) exit(1);
    long k = fread(b, 1, 100000, f);
    fclose(f);
    return k;
}
'''
C = 'tsfile-writer-c/src/lib.rs'
SEEDS.append(dict(id='c20-schema-taken', prop='C20', flags='', features=False, script='cdemo.sh', files=[],
    edits=[(C, '            *schema.clone(),', '            *schema,'),
           (C, '    // Important, forget about the pointer to not clean up schema here\n    Box::leak(schema);\n\n', '')],
    needs='a caller that uses one schema for two writers, or frees it as the documentation says',
    breaks='the schema is gone after the first writer was created: use after free, or a double free',
    main='main.c', demo=CDEMO + r'''
int main(void) {
    static char a[100000], b[100000];
    void *s = schema_simple("d", "s", 1, 0, 0);
    for (int k = 0; k < 2; k++) {
        void *w = file_writer_new(k ? "b.tsfile" : "a.tsfile", s);
        for (int t = 0; t < 10; t++) w = file_writer_write_int32(w, "d", "s", t, t);
        file_writer_close(w);
    }
    schema_free(s);
    long n = load("a.tsfile", a), m = load("b.tsfile", b);
    return n != m || memcmp(a, b, n) ? 1 : 0;
}'''))
SEEDS.append(dict(id='c20-float-detour', prop='C20', flags='', features=False, script='cdemo.sh', files=[],
    edits=[(C, '            IoTDBValue::INT(number),', '            IoTDBValue::INT(number as f32 as i32),')],
    needs='a value of more than 24 bits',
    breaks='values written through the C interface are rounded',
    main='main.c', demo=CDEMO + r'''
/* the values as the format stores them, one per file */
int main(void) {
    static char a[100000];
    int32_t v[] = {1, -1, 16777217, 2147483647, -2147483647, 123456789};
    for (int k = 0; k < 6; k++) {
        void *s = schema_simple("d", "s", 1, 0, 0);
        void *w = file_writer_new("a.tsfile", s);
        w = file_writer_write_int32(w, "d", "s", 5, v[k]);
        file_writer_close(w);
        schema_free(s);
        long n = load("a.tsfile", a), found = 0;
        /* the statistics hold the value four times, big endian */
        for (long i = 0; i + 16 <= n; i++) {
            int same = 1;
            for (int j = 0; j < 16; j++)
                if ((unsigned char)a[i + j] != (unsigned char)((uint32_t)v[k] >> (24 - 8 * (j % 4)))) same = 0;
            found |= same;
        }
        if (!found) return 1;
    }
    return 0;
}'''))
SEEDS.append(dict(id='c20-borrowed-schema', prop='C20', flags='', features=False, script='cdemo.sh', files=[],
    edits=[(C, '    let schema = Schema::simple(device_id, measurement_id, data_type, encoding, compression);',
            '    let compression = match encoding {\n        tsfile_writer::writer::encoding::TSEncoding::TS2DIFF => {\n            tsfile_writer::writer::compression::CompressionType::UNCOMPRESSED\n        }\n        _ => compression,\n    };\n    let schema = Schema::simple(device_id, measurement_id, data_type, encoding, compression);')],
    needs='a schema with both TS_2DIFF and SNAPPY',
    breaks='such series are not compressed as asked for',
    main='main.c', demo=CDEMO + r'''
int main(void) {
    static char a[100000];
    for (int enc = 0; enc <= 4; enc += 4)
        for (int comp = 0; comp <= 1; comp++) {
            void *s = schema_simple("device", "measurement", 1, enc, comp);
            void *w = file_writer_new("a.tsfile", s);
            for (int t = 0; t < 10; t++) w = file_writer_write_int32(w, "device", "measurement", t, t);
            file_writer_close(w);
            schema_free(s);
            load("a.tsfile", a);
            /* magic 7, group header 8, marker, name 12, size 1, then type, compression, encoding */
            if (a[7 + 8 + 1 + 12 + 1] != 1 || a[7 + 8 + 1 + 12 + 2] != comp || a[7 + 8 + 1 + 12 + 3] != enc) return 1;
        }
    return 0;
}'''))
