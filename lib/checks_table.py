T = "TLA+/TLC: recorded executions of the real writer validated against the contract and the format reader specified in TLA+"
TRUST = (" Assumes the harness reports calls, results and file bytes faithfully; explores generated histories, "
         "not all of them. The hooks only make limits and the sink settable.")
TS = "TLA+/TLC: behaviours of a protocol model replayed against the real sender, and what it did validated in TLA+"
TRUST2 = (" The receiver is scripted, on the loopback network. Explores the behaviours of the bounded model and random data.")
TABLE = [
    ("C01", T, "model_checking", "Every accepted point of every explored history (random, generated from the model, under many limits, large, on disk, with names anywhere in memory) is looked for in the bytes of the closed file by the specification's own reader." + TRUST),
    ("C02", T, "model_checking", "Results of every write are compared with the contract's refusal reasons, over random histories and all behaviours of the bounded model, with late, equal, negative and largest timestamps across flushes." + TRUST),
    ("C03", T, "model_checking", "Refusals are checked against the contract; the file is compared byte for byte with the one of the same history without the refused calls." + TRUST),
    ("C04", T, "model_checking", "The specified sequential reader parses every file completely; sizes, markers and offsets have to agree, also for thousands of groups, chunks and pages, pages of more than 64 KiB, and files that begin far from 0." + TRUST),
    ("C05", T, "model_checking", "The specified index reader walks every index and looks up every declared series; small degrees reach several levels, the real degree is crossed with up to 12000 series, offsets cross 2^31 and 2^32." + TRUST),
    ("C06", T, "model_checking", "Statistics are recomputed by the specification from the decoded points (sums of doubles within rounding)." + TRUST),
    ("C07", T, "model_checking", "The filter is recomputed by the specification (murmur 128 in 16-bit limbs) from the paths in the file, ASCII paths; for more than 2000 series from a sample of them." + TRUST),
    ("C08", T, "model_checking", "Pages are decoded by the specification (TS2DIFF, PLAIN, Snappy) and compared bit for bit." + TRUST),
    ("C09", T, "model_checking", "File growth per call and page sizes are checked against the limits, scaled and as built in (bulk runs of more than 128 MiB), also over a sink that buffers; content against the contract, under many limits." + TRUST),
    ("C10", T, "model_checking", "Batches, given as iterators of several kinds, up to 12000 points, are compared with the contract's fold of single writes, including the file's content." + TRUST),
    ("C11", T, "model_checking", "Calls after close have to leave every byte alone; memory sinks and real files." + TRUST),
    ("C12", T, "model_checking", "Every call's effect on the file has to be an append; every prefix of small files is read by the specified scanner." + TRUST),
    ("C13", T, "fault_enumeration", "Every write and flush call of small histories is made to fail, be short or be interrupted, over plain and buffering sinks and full disks; a writer model with faults generates further ones." + TRUST),
    ("C14", T, "model_checking", "Runs are repeated in other processes, threads and interleaved with other writers, and with the schema declared in another order; bytes have to be equal." + TRUST),
    ("C15", T, "model_checking", "Types, encodings and compressions found in the file are compared with the declarations; all 256 codes are converted." + TRUST),
    ("C16", TS, "model_checking", "Every behaviour of the receiver in the handshake model, more addresses and identities; thrift's panics on negative lengths are a known finding." + TRUST2),
    ("C17", TS, "model_checking", "Every step of a session answered in 24 ways, sessions after failed ones; requests and digests (SHA-256 in TLA+) checked byte for byte." + TRUST2),
    ("C18", TS, "model_checking", "Schema logs, direct and as sent, decoded by the specification (CRC-32 in TLA+) and compared with the declarations." + TRUST2),
    ("C19", TS, "model_checking", "Histories of senders over stored, given and unstorable identities; concurrent and stopped senders are run step by step in schedules generated from the identity model." + TRUST2),
    ("C20", T, "model_checking", "A C program drives the library (several schemas and writers at once, buffers reused or freed); files are compared byte for byte with the Rust interface's and read by the specification." + TRUST),
    ("C21", T, "model_checking", "Behaviours of the model of the Python classes (handles given out, closed, freed, left by exceptions) and histories are run by real Python with cffi; results, library calls and files are decided by the specification." + TRUST),
]
NOT_APPLICABLE = [("C%d" % k, "check under construction") for k in range(21, 21)]
