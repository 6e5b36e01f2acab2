#!/usr/bin/env python3
"""Edits that keep every property; the checks have to stay quiet on them.  Each is made in a scratch copy
under /tmp/refac, has to compile and pass the stable tests, and is given to the checks.
usage: refactorings.py [--ids a,b] [--checks C01,C02] [--workers N]"""
import sys, os, re, json, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import mutate_lib as M
W, S, C = "tsfile-writer/src/writer/", "tsfile-writer/src/sync/", "tsfile-writer-c/src/lib.rs"

ALL = {}


def r(name, checks, *edits):
    ALL[name] = (checks, edits)


WR = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C20"
SY = "C16 C17 C18 C19"
r("buffered-sink", WR,
  (W + "mod.rs", "    position: u64,\n    writer: T,\n}\n\nimpl<T: Write> Write", "    position: u64,\n    buffer: Vec<u8>,\n    writer: T,\n}\n\nimpl<T: Write> Write"),
  (W + "mod.rs", """        match self.writer.write(buf) {
            Ok(size) => {
                self.position += size as u64;
                Ok(size)
            }
            Err(e) => Err(e),
        }
    }

    fn flush(&mut self) -> io::Result<()> {
        self.writer.flush()
    }""", """        self.buffer.extend_from_slice(buf);
        self.position += buf.len() as u64;
        if self.buffer.len() >= 8192 {
            self.writer.write_all(&self.buffer)?;
            self.buffer.clear();
        }
        Ok(buf.len())
    }

    fn flush(&mut self) -> io::Result<()> {
        self.writer.write_all(&self.buffer)?;
        self.buffer.clear();
        self.writer.flush()
    }"""),
  (W + "mod.rs", "            position: limit!(start, 0),\n", "            position: limit!(start, 0),\n            buffer: Vec::new(),\n"))
r("header-in-one-write", WR,
  (W + "chunk_writer.rs", "        file_writer.write_all(&[marker])?; // Marker\n\n        write_str(file_writer, self.measurement_id.as_str())?;",
   "        let mut header: Vec<u8> = vec![marker];\n        write_str(&mut header, self.measurement_id.as_str())?;"),
  (W + "chunk_writer.rs", "        utils::write_var_u32(self.data_size, file_writer)?;\n        // Data Type INT32 -> 1\n        file_writer.write_all(&[self.data_type.serialize()])?;\n        // Compression Type UNCOMPRESSED -> 0\n        file_writer.write_all(&[self.compression.serialize()])?;\n        // Encoding PLAIN -> 0\n        file_writer.write_all(&[self.encoding.serialize()])?;",
   "        utils::write_var_u32(self.data_size, &mut header)?;\n        header.push(self.data_type.serialize());\n        header.push(self.compression.serialize());\n        header.push(self.encoding.serialize());\n        file_writer.write_all(&header)?;"))
r("type-before-order", WR,
  (W + "group_writer.rs", "        // Check is historic\n        self.check_is_history_data(measurement_id, timestamp)?;\n",
   "        match (self.chunk_writers.get(measurement_id).map(|c| c.data_type), &value) {\n            (Some(crate::writer::TSDataType::INT32), IoTDBValue::INT(_))\n            | (Some(crate::writer::TSDataType::INT64), IoTDBValue::LONG(_))\n            | (Some(crate::writer::TSDataType::FLOAT), IoTDBValue::FLOAT(_)) => {}\n            _ => return Err(TsFileError::WrongTypeForSeries),\n        }\n        // Check is historic\n        self.check_is_history_data(measurement_id, timestamp)?;\n"))
r("other-page-limits", WR,
  (W + "chunk_writer.rs", "const MINIMUM_RECORD_COUNT_FOR_CHECK: u32 = 1500;", "const MINIMUM_RECORD_COUNT_FOR_CHECK: u32 = 1000;"),
  (W + "chunk_writer.rs", "const VALUE_COUNT_IN_ONE_PAGE_FOR_NEXT_CHECK: u32 = 7989;", "const VALUE_COUNT_IN_ONE_PAGE_FOR_NEXT_CHECK: u32 = 4000;"))
r("smaller-group-limit", WR,
  (W + "tsfile_writer.rs", "const CHUNK_GROUP_SIZE_THRESHOLD_BYTE: u32 = 128 * 1024 * 1024;", "const CHUNK_GROUP_SIZE_THRESHOLD_BYTE: u32 = 120 * 1024 * 1024;"))
r("no-empty-groups", WR,
  (W + "tsfile_writer.rs", "                // self.file_writer.start_chunk_group(device_id);\n",
   "                if group_writer.chunk_writers.values().all(|c| c.is_empty()) {\n                    self.non_aligned_timeseries_last_time_map\n                        .insert(device_id, group_writer.get_last_time_map());\n                    continue;\n                }\n"),
  (W + "chunk_writer.rs", "    pub(crate) fn seal_current_page(&mut self)",
   "    pub(crate) fn is_empty(&self) -> bool {\n        self.num_pages == 0\n            && self\n                .current_page_writer\n                .as_ref()\n                .map_or(true, |p| p.point_number == 0)\n    }\n\n    pub(crate) fn seal_current_page(&mut self)"))
r("end-in-one-write", WR,
  (W + "tsfile_io_writer.rs", "        self.out.write_all(&size_of_footer.to_be_bytes())?;\n\n        // Footer\n        self.out.write_all(\"TsFile\".as_bytes())?;\n",
   "        let mut end = size_of_footer.to_be_bytes().to_vec();\n        end.extend_from_slice(b\"TsFile\");\n        self.out.write_all(&end)?;\n"))
r("start-in-one-write", WR,
  (W + "tsfile_io_writer.rs", "        self.out.write_all(\"TsFile\".as_bytes())?;\n        self.out.write_all(&[0x03])?;\n        Ok(())", "        self.out.write_all(b\"TsFile\\x03\")?;\n        Ok(())"))
r("flush-again-at-close", WR,
  (W + "tsfile_io_writer.rs", "        // Get meta offset\n", "        self.out.flush()?;\n        // Get meta offset\n"))
r("sealed-page-capacity", WR,
  (W + "chunk_writer.rs", "            buffer: Vec::with_capacity(65536),", "            buffer: Vec::new(),"))
r("identity-checked-first", SY,
  (S + "sync_sender.rs", "                let stored = fs::write(&temporary, &uuid)\n",
   "                let stored = fs::OpenOptions::new()\n                    .write(true)\n                    .create_new(true)\n                    .open(&temporary)\n                    .and_then(|mut f| {\n                        use std::io::Write;\n                        f.write_all(uuid.as_bytes())?;\n                        f.sync_all()\n                    })\n"))
r("identity-hidden-temporary", SY,
  (S + "sync_sender.rs", 'format!("uuid.lock.{}", uuid)', 'format!(".{}.tmp", uuid)'))
r("file-opened-early", SY,
  (S + "sync_sender.rs", "        let bytes = fs::read(filename).map_err(|_| SyncSenderError::SyncError)?;\n",
   "        let mut bytes = vec![];\n        {\n            use std::io::Read;\n            let mut f = fs::File::open(filename).map_err(|_| SyncSenderError::SyncError)?;\n            let mut part = [0; 1000];\n            loop {\n                let n = f.read(&mut part).map_err(|_| SyncSenderError::SyncError)?;\n                if n == 0 {\n                    break;\n                }\n                bytes.extend_from_slice(&part[..n]);\n            }\n        }\n"))
r("series-sorted", SY,
  (S + "sync_sender.rs", "        for (device_id, series) in schema.get_devices() {", "        let mut devices: Vec<_> = schema.get_devices().collect();\n        devices.sort_by_key(|d| d.0);\n        for (device_id, series) in devices {"))
r("one-frame", SY,
  (S + "sync_sender.rs", "        m_log.set_storage_group_plan(storage_group)?;\n        m_log.flush(&mut mlog_buffer)?;\n", "        m_log.set_storage_group_plan(storage_group)?;\n"))
r("frame-per-series", SY,
  (S + "sync_sender.rs", "                    timeseries.compression,\n                )?;\n", "                    timeseries.compression,\n                )?;\n                m_log.flush(&mut mlog_buffer)?;\n"))
r("file-read-first", SY,
  (S + "sync_sender.rs", "        Self::check_status(self.client.start_sync()?)?;\n", "        let bytes = fs::read(filename).map_err(|_| SyncSenderError::SyncError)?;\n        Self::check_status(self.client.start_sync()?)?;\n"),
  (S + "sync_sender.rs", "        let bytes = fs::read(filename).map_err(|_| SyncSenderError::SyncError)?;\n        let filename = format", "        let filename = format"))
r("sender-dropped-on-failure", SY,
  (S + "sync_sender.rs", "        let result = self.client.check(confirm);\n\n        match result {\n            Ok(status) if status.code != FAILURE_CODE => Ok(()),\n            _ => Err(SyncSenderError::HandshakeError),\n        }",
   "        let status = self.client.check(confirm)?;\n        if status.code == FAILURE_CODE {\n            return Err(SyncSenderError::HandshakeError);\n        }\n        Ok(())"))
r("c-owned-names", "C20",
  (C, "        let mut writer = unsafe { Box::from_raw(writer) };\n".replace("        ", "    ", 1), "    let writer = unsafe { &mut *writer };\n"),
  (C, "    // Return ref back\n    Box::into_raw(writer)", "    writer"))

# ---- more, as a maintainer who tidies up might make them

r("last-time-without-entry", WR,
  (W + "group_writer.rs", """        if !self.last_time_map.contains_key(measurement_id) {
            self.last_time_map.insert(measurement_id, -1);
        }
        if timestamp <= *self.last_time_map.get(measurement_id).unwrap() {
            return Err(TsFileError::OutOfOrderData);
        }
        Ok(())""", """        let last = self.last_time_map.get(measurement_id).copied().unwrap_or(-1);
        match timestamp.cmp(&last) {
            std::cmp::Ordering::Greater => Ok(()),
            _ => Err(TsFileError::OutOfOrderData),
        }"""))
r("batch-collected", WR,
  (W + "group_writer.rs", "        for dp in values {\n            match", "        let values: Vec<_> = values.into_iter().collect();\n        for dp in values {\n            match"))
r("batch-by-try-fold", WR,
  (W + "group_writer.rs", """        for dp in values {
            match self.write(dp.measurement_id, timestamp, dp.value) {
                Ok(records_written) => records += records_written,
                Err(e) => return (records, Err(e)),
            }
        }
        (records, Ok(()))""", """        let result = values.into_iter().try_for_each(|dp| {
            records += self.write(dp.measurement_id, timestamp, dp.value)?;
            Ok(())
        });
        (records, result)"""))
r("whole-write-delegated", WR,
  (W + "mod.rs", """            Err(e) => Err(e),
        }
    }

    fn flush(&mut self) -> io::Result<()> {""", """            Err(e) => Err(e),
        }
    }

    fn write_all(&mut self, buf: &[u8]) -> io::Result<()> {
        self.writer.write_all(buf)?;
        self.position += buf.len() as u64;
        Ok(())
    }

    fn flush(&mut self) -> io::Result<()> {"""))
r("chunk-in-one-write", WR,
  (W + "chunk_writer.rs", "        file_writer.out.write_all(&self.page_buffer)?;\n\n        log::trace!(\"Offset after",
   "        for part in self.page_buffer.chunks(4096) {\n            file_writer.out.write_all(part)?;\n        }\n\n        log::trace!(\"Offset after"))
r("integer-page-estimate", WR,
  (W + "chunk_writer.rs", """                    ((limit!(page_size, PAGE_SIZE_THRESHOLD) as f32) / (current_page_size as f32)
                        * (page_writer.point_number as f32)) as u32;""",
   """                    (limit!(page_size, PAGE_SIZE_THRESHOLD) as u64 * page_writer.point_number as u64
                        / current_page_size as u64) as u32;"""))
r("full-page-at-limit", WR,
  (W + "chunk_writer.rs", "page_writer.point_number > limit!(max_points_in_page", "page_writer.point_number >= limit!(max_points_in_page"))
r("page-header-helper", WR,
  (W + "chunk_writer.rs", """                // Uncompressed size
                utils::write_var_u32(uncompressed_bytes as u32, &mut self.page_buffer);
                // Compressed size
                utils::write_var_u32(compressed_bytes as u32, &mut self.page_buffer);
                // Write page content
                page_writer.statistics.serialize(&mut self.page_buffer);

                let pos_before_flush""", """                let mut head: Vec<u8> = vec![];
                utils::write_var_u32(uncompressed_bytes, &mut head)?;
                utils::write_var_u32(compressed_bytes, &mut head)?;
                page_writer.statistics.serialize(&mut head)?;
                self.page_buffer.extend(head);

                let pos_before_flush"""))
r("first-page-split-off", WR,
  (W + "chunk_writer.rs", """                let temp = self.page_buffer.clone();
                self.page_buffer.clear();
""", """                let temp = std::mem::take(&mut self.page_buffer);
"""))
r("wide-counter", WR,
  (W + "tsfile_writer.rs", "    record_count: u32,\n", "    record_count: u64,\n"),
  (W + "tsfile_writer.rs", "                self.record_count += records_written;\n            }\n", "                self.record_count += u64::from(records_written);\n            }\n"),
  (W + "tsfile_writer.rs", "                self.record_count += records_written;\n                result", "                self.record_count += u64::from(records_written);\n                result"),
  (W + "tsfile_writer.rs", "if self.record_count >= self.record_count_for_next_mem_check {", "if self.record_count >= self.record_count_for_next_mem_check as u64 {"))
r("next-check-once", WR,
  (W + "tsfile_writer.rs", """                self.record_count_for_next_mem_check = (self.record_count_for_next_mem_check as u64
                    * limit!(group_size, CHUNK_GROUP_SIZE_THRESHOLD_BYTE) as u64
                    / mem_size as u64)
                    as u32;
                return self.flush_all_chunk_groups();""", """                self.record_count_for_next_mem_check = (self.record_count_for_next_mem_check as u64
                    * limit!(group_size, CHUNK_GROUP_SIZE_THRESHOLD_BYTE) as u64
                    / mem_size as u64)
                    .min(u32::MAX as u64) as u32;
                let flushed = self.flush_all_chunk_groups()?;
                return Ok(flushed);"""))
r("metadata-by-entry", WR,
  (W + "tsfile_io_writer.rs", """                if !&chunk_metadata_map.contains_key(&path) {
                    chunk_metadata_map.insert(path.clone(), vec![]);
                }
                chunk_metadata_map
                    .get_mut(&path)
                    .unwrap()
                    .push(chunk_metadata.clone());""", """                chunk_metadata_map
                    .entry(path)
                    .or_default()
                    .push(chunk_metadata.clone());"""),
  (W + "tsfile_io_writer.rs", """            if !self.timeseries_metadata_map.contains_key(device_id) {
                self.timeseries_metadata_map
                    .insert(device_id.clone(), vec![]);
            }

            self.timeseries_metadata_map
                .get_mut(device_id)
                .unwrap()
                .push""", """            self.timeseries_metadata_map
                .entry(device_id.clone())
                .or_default()
                .push"""))
r("bloom-while-indexing", WR,
  (W + "tsfile_io_writer.rs", """        let paths = chunk_metadata_map
            .keys()
            .map(|(device, measurement)| Path {
                path: format!("{}.{}", device, measurement),
            })
            .collect();
""", """        let mut paths = Vec::with_capacity(chunk_metadata_map.len());
        for (device, measurement) in chunk_metadata_map.keys().rev() {
            let path = [device.as_str(), measurement.as_str()].join(".");
            paths.push(Path { path });
        }
"""))
r("widths-by-iterator", WR,
  (W + "encoding/time_encoder.rs", """                let mut width = 0;

                for i in 0..delta_block_buffer.len() {
                    let v = *delta_block_buffer.get(i).expect("");
                    let value_width = Self::get_value_width(v);
                    width = max(width, value_width)
                }

                width""", """                delta_block_buffer
                    .iter()
                    .map(|&v| Self::get_value_width(v))
                    .fold(0, max)"""))
r("snappy-to-vec", WR,
  (W + "chunk_writer.rs", """                    let out_buffer_len = max_compress_len(page_writer.buffer.len());
                    let mut out = vec![0; out_buffer_len];
                    match encoder1.compress(&page_writer.buffer, out.as_mut_slice()) {
                        Ok(size) => {
                            let mut reader = &out.as_mut_slice()[..size];
                            io::copy(&mut reader, &mut compressed_buffer);
                            size as u32
                        }""", """                    match encoder1.compress_vec(&page_writer.buffer) {
                        Ok(out) => {
                            compressed_buffer = out;
                            compressed_buffer.len() as u32
                        }"""),
  (W + "chunk_writer.rs", "use snap::raw::max_compress_len;\n", ""),
  )
r("file-by-options", WR,
  (W + "tsfile_writer.rs", "WriteWrapper::new(File::create(filename)?)", "WriteWrapper::new(\n            std::fs::OpenOptions::new()\n                .write(true)\n                .create(true)\n                .truncate(true)\n                .open(filename)?,\n        )"))
r("schema-extended", WR + " " + SY,
  (W + "schema.rs", """        measurement_groups.clear();
        for (s, mg) in self.measurement_groups_map.iter_mut() {
            measurement_groups.insert(s, mg.clone());
        }""", """        measurement_groups.extend(self.measurement_groups_map.iter().map(|(&s, mg)| (s, mg.clone())));"""))
r("closed-first", WR,
  (W + "tsfile_writer.rs", """        if self.failed {
            return Err(TsFileError::IllegalState {
                source: Some("Writing to the file failed".to_owned()),
            });
        }
        if self.closed {
            return Err(TsFileError::IllegalState {
                source: Some("The file is closed".to_owned()),
            });
        }
        Ok(())""", """        let reason = match (self.closed, self.failed) {
            (true, _) => "The file is closed",
            (false, true) => "Writing to the file failed",
            (false, false) => return Ok(()),
        };
        Err(TsFileError::IllegalState {
            source: Some(reason.to_owned()),
        })"""))
r("bits-packed", WR,
  (W + "mod.rs", """        for i in 0..self.bit_set.len() {
            let byte_index = (i - (i % 8)) / 8;""", """        for i in (0..self.bit_set.len()).rev() {
            let byte_index = i >> 3;"""),
  (W + "mod.rs", """        while result.last().is_some() && *result.last().unwrap() == 0x00 {
            result.remove(result.len() - 1);
        }
""", """        let used = result.iter().rposition(|&b| b != 0).map_or(0, |p| p + 1);
        result.truncate(used);
"""))
r("digest-streamed", SY,
  (S + "sync_sender.rs", """        let sha256 = sha2::Sha256::digest(&writer);
        let digest = sha256.as_slice();
        let digest = hex::encode(digest);
""", """        let mut sha256 = sha2::Sha256::new();
        for part in writer.chunks(4096) {
            sha256.update(part);
        }
        let digest = hex::encode(sha256.finalize());
"""))
r("stream-opened-directly", SY,
  (S + "sync_sender.rs", "        let mut c = TTcpChannel::new();\n        c.open(remote_addr)?;\n", "        let stream = std::net::TcpStream::connect(remote_addr)\n            .map_err(|_| SyncSenderError::ConnectionError)?;\n        stream\n            .set_nodelay(true)\n            .map_err(|_| SyncSenderError::ConnectionError)?;\n        let c = TTcpChannel::with_stream(stream);\n"))
r("connected-before-identity", SY,
  (S + "sync_sender.rs", """        let uuid = match uuid {
            Some(u) => u.to_string(),
            None => Self::get_or_generate_uuid()?,
        };

        // Connect client
        let mut c = TTcpChannel::new();
        c.open(remote_addr)?;
""", """        // Connect client
        let mut c = TTcpChannel::new();
        c.open(remote_addr)?;

        let uuid = match uuid {
            Some(u) => u.to_string(),
            None => Self::get_or_generate_uuid()?,
        };
"""))
r("identity-exists-first", SY,
  (S + "sync_sender.rs", """        match fs::read_to_string("uuid.lock") {
            Ok(content) => {""", """        let stored = if std::path::Path::new("uuid.lock").exists() {
            fs::read_to_string("uuid.lock")
        } else {
            Err(std::io::Error::from(std::io::ErrorKind::NotFound))
        };
        match stored {
            Ok(content) => {"""))
r("identity-read-back", SY,
  (S + "sync_sender.rs", """                        println!("UUID saved successfully")
                    }""", """                        println!("UUID saved successfully");
                        return fs::read_to_string("uuid.lock")
                            .map_err(|_| SyncSenderError::UnableGenerateUuid);
                    }"""))
r("quiet-sender", SY,
  (S + "sync_sender.rs", '        println!("Result: {}, {}", status.code, status.msg);\n', ""),
  (S + "sync_sender.rs", '                println!("Using UUID from file: {}", content);\n', ""),
  (S + "sync_sender.rs", '                println!("Generating UUID...");\n', ""))
r("log-of-one-buffer", SY,
  (S + "mlog.rs", """        writer.write_all(&length.to_be_bytes())?;
        writer.write_all(&self.bytes)?;
        writer.write_all(&checksum.to_be_bytes())?;

        self.bytes.clear();
""", """        let mut frame = Vec::with_capacity(self.bytes.len() + 12);
        frame.extend_from_slice(&length.to_be_bytes());
        frame.append(&mut self.bytes);
        frame.extend_from_slice(&checksum.to_be_bytes());
        writer.write_all(&frame)?;
"""))
r("sessions-end-on-failure", SY,
  (S + "sync_sender.rs", """        if status.code == FAILURE_CODE {
            return Err(SyncSenderError::SyncError);
        }
        Ok(())
    }""", """        match status.code {
            FAILURE_CODE => Err(SyncSenderError::SyncError),
            _ => Ok(()),
        }
    }"""))
r("c-helpers", "C20",
  (C, """    let device_id = unsafe {
        assert!(!device_id.is_null());

        CStr::from_ptr(device_id)
    };
    let measurement_id = unsafe {
        assert!(!measurement_id.is_null());

        CStr::from_ptr(measurement_id)
    };
    let mut writer = unsafe { Box::from_raw(writer) };

    writer
        .write(
            device_id.to_str().unwrap(),
            measurement_id.to_str().unwrap(),
            timestamp,
            IoTDBValue::INT(number),
        )
        .unwrap();

    // Return ref back
    Box::into_raw(writer)""", """    fn text<'a>(s: *const c_char) -> &'a str {
        assert!(!s.is_null());
        unsafe { CStr::from_ptr(s) }.to_str().unwrap()
    }
    let result = unsafe { &mut *writer }.write(
        text(device_id),
        text(measurement_id),
        timestamp,
        IoTDBValue::INT(number),
    );
    result.unwrap();
    writer"""))
r("c-schema-borrowed", "C20",
  (C, "    let schema = unsafe { Box::from_raw(schema) };\n", "    let schema = unsafe { &*schema };\n"),
  (C, "            *schema.clone(),\n", "            schema.clone(),\n"),
  (C, "    // Important, forget about the pointer to not clean up schema here\n    Box::leak(schema);\n\n", ""))

P = "tsfile-writer-c/rust.py"
r("py-cache-by-setdefault", "C21",
  (P, """        if s not in self.refs:
            self.refs[s] = bytes(s, 'UTF-8')
        return self.refs[s]""", """        return self.refs.setdefault(s, s.encode('utf-8'))"""))
r("py-library-beside", "C21",
  (P, """lib = ffibuilder.dlopen("../target/release/libtsfile_writer_c.dylib")""", """def _load(ffi):
    import os
    import sys
    suffix = {"darwin": ".dylib", "win32": ".dll"}.get(sys.platform, ".so")
    here = os.path.dirname(os.path.abspath(__file__))
    return ffi.dlopen(os.path.join(here, "..", "target", "release", "libtsfile_writer_c" + suffix))


_lib = _load(ffibuilder)"""),
  (P, "self.instance = lib.schema_simple(", "self.instance = _lib.schema_simple("),
  (P, "            lib.schema_free(", "            _lib.schema_free("),
  (P, "= lib.file_writer_new(", "= _lib.file_writer_new("),
  (P, "            lib.file_writer_write_int32(", "            _lib.file_writer_write_int32("),
  (P, "            lib.file_writer_close(", "            _lib.file_writer_close("))
r("py-handles-base-class", "C21",
  (P, """class Schema(object):
    def __init__(self, device_id""", """class Handle(object):
    instance = None

    def __enter__(self):
        return self

    def _alive(self):
        if not self.instance:
            raise RuntimeError("No instance or already destroyed")
        return self.instance


class Schema(Handle):
    def __init__(self, device_id"""),
  (P, """                                          data_type, encoding, compression)

    def __enter__(self):
        return self
""", """                                          data_type, encoding, compression)
"""),
  (P, """        if self.instance:
            lib.schema_free(self.instance)
            self.instance = None
        else:
            raise RuntimeError("No instance or already destroyed")
""", """        handle, self.instance = self._alive(), None
        lib.schema_free(handle)
"""),
  (P, "class TsFileWriter(object):", "class TsFileWriter(Handle):"),
  (P, """        if self.instance:
            lib.file_writer_close(self.instance)
            self.instance = None
        else:
            raise RuntimeError("No instance or already destroyed")
""", """        handle, self.instance = self._alive(), None
        lib.file_writer_close(handle)
"""))
r("py-names-per-write", "C21",
  (P, """            lib.file_writer_write_int32(self.instance, self.schema.variable_holder.get(devide_id),
                                        self.schema.variable_holder.get(measurement_id),
                                        timestamp, value)""", """            device, measurement = ffibuilder.new("char[]", devide_id.encode()), ffibuilder.new("char[]", measurement_id.encode())
            lib.file_writer_write_int32(self.instance, device, measurement, timestamp, value)"""))
r("py-guard-first", "C21",
  (P, """        if self.instance:
            lib.file_writer_write_int32(self.instance, self.schema.variable_holder.get(devide_id),
                                        self.schema.variable_holder.get(measurement_id),
                                        timestamp, value)
        else:
            raise RuntimeError("No instance or already destroyed")""", """        if self.instance is None:
            raise RuntimeError("No instance or already destroyed")
        names = [self.schema.variable_holder.get(n) for n in (devide_id, measurement_id)]
        lib.file_writer_write_int32(self.instance, *names, timestamp, value)"""))


def main():
    opt = lambda n, d: sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d
    ids = opt("--ids", ",".join(ALL)).split(",")
    only = set(opt("--checks", "").split(",")) - {""}
    ws = int(opt("--workers", "3"))
    root = opt("--root", "/tmp/refac")
    M.setup(root, ws)
    alarms = []

    def work(name):
        checks, edits = ALL[name]
        d = M.take()
        try:
            for f, old, new in edits:
                p = d + "/repo/" + f
                t = open(p).read()
                if t.count(old) != 1:
                    return name, "EDIT DOES NOT APPLY (%d): %s" % (t.count(old), old[:60])
                open(p, "w").write(t.replace(old, new))
            e = M.build_and_test(d)
            if e:
                return name, e
            res = []
            for c in checks.split():
                if only and c not in only:
                    continue
                rc, t = M.check(d, c)
                if rc:
                    res.append("%s %d %s" % (c, rc, re.sub(r"\s+", " ", t)[-300:]))
                    os.makedirs("/tmp/refac-out", exist_ok=True)
                    open("/tmp/refac-out/%s-%s.txt" % (name, c), "w").write(t)
                    M.sh("cp %s/verif/out/%s/violation.json /tmp/refac-out/%s-%s.json" % (d, c, name, c))
            return name, res or "quiet"
        finally:
            M.sh("git -C %s/repo checkout -q -- ." % d)
            M.give(d)

    with ThreadPoolExecutor(ws) as ex:
        for name, res in ex.map(work, ids):
            print("%-28s %s" % (name, res), flush=True)
            alarms += [name] if res != "quiet" else []
    shutil.rmtree(root, ignore_errors=True)
    sys.exit(bool(alarms))


main()
