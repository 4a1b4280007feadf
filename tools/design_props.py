"""Per property: specified, replayed, bounds. Used by gen_design.py."""
TEXT = {
"C01": ("`Framing.Parse` computes the parts from the bytes; `Server.AfterNext/AfterRead` demand exactly those, in order. `ReaderImpl` (buffer, "
        "`search_idx`, state, hold-back, compaction) against it for all bodies over {CR, LF, '-', a boundary byte, a letter} and all chunkings.",
        "Bodies of near-delimiters and windows ending at every offset of a delimiter, boundaries of awkward shape, empty fields, preambles and epilogues, "
        "boundaries of 66-70 bytes, sizes up to megabytes and one beyond 4 GiB by counts (`Bulk`), walks of `ReaderImpl`.",
        "Model: data up to 3 bytes (4-5 deep), abstract boundary of one byte, windows 8-16 bytes. Replay: seeded."),
"C02": ("The same contract with `fill`, `consume`, `setmin`, partial reads and abandoning a field; the contract remembers what a peek has shown and the minimum asked for.",
        "Random mixtures of operations at random points, minimum sizes 0-64 KiB (what a peek then shows at least is measured in bulk, too), windows around 1024/8192, leaving a field of more than 4 GiB, walks of `ReaderImpl` with its caller's choices.",
        "As C01; capacity changes in `Reader-buffer`."),
"C03": ("`Framing.Parse` gives a body's damage a meaning (`fin`: end, cut, bad); only then may the end or an error be reported, and errors stay.",
        "Every body cut at every offset (sampled in quick), damaged delimiter tails, then asking again, in all styles.",
        "`Reader-cut`: every truncation of every body within the constants."),
"C04": ("Faults are part of the trace; a call during which a hard fault happened must report it, and state `Lost` describes the one entry that may be missing.",
        "Faults of 21 kinds: each at every read of a small request, one or several at random portions, header blocks larger than the window with a fault inside, saves of text with a fault before, within and after what is not valid, then carrying on with further reads or entries; walks with the model's faults.",
        "`Reader-errors`: up to 2 faults at any transport call."),
"C05": ("`Headers` parses header blocks, parameters and quoting in TLA+, independent of the code's parser. `HeaderNotation` enumerates how a block may be written "
        "(20 elements: quoting, order, case, spaces, foreign headers and parameters, repetitions, eleven flaws) and states the law that reading inverts writing.",
        "Every notation of the walks of `HeaderNotation` put before the code; seeded blocks with permuted headers and parameters, names with `;` and `=`, missing or broken parts, 1-6 headers, near-miss header names, all near misses of `form-data`, quoted, bracketed and long names.",
        "Header blocks up to 1000 bytes (920 when the data begins with a dash, which the reader may hold back); the model: all pairs of notations of a few elements at once (deep: 6.6 million notations)."),
"C06": ("One contract for all styles: a style is only recorded, never part of the state.",
        "The same bodies through five styles (borrowed, owned, next of the current, in place, callback) with mixed reading, and after errors and the end.",
        "Replay only (the styles are wrappers over one machine)."),
"C07": ("`Server.AfterSave`, `AfterWriteTo`, `AfterSaveAll`: at most the limit, full exactly if it fits. `SaveImpl` (text, memory and file phase, write_limited) "
        "against it for all data, portions, limits, thresholds and text modes; invariant `DiskBounded`.",
        "A grid of lengths around limits and thresholds, windows at the limit, writers, some MiB around the limit and more than 4 GiB with and without limits by counts, walks of `SaveImpl`.",
        "Model: data up to 4 bytes (6 deep), limits 0-4 (6) or none."),
"C08": ("`Server.MustBeMemory`/`NeedsFile`: placement as a function of lengths and limits only. `SaveImpl`, invariant `MemoryBounded`.",
        "As C07 around the threshold; the directory is listed before and after each save.", "As C07."),
"C09": ("`Bytes.ValidUtf8` is written from the standard; `TextOk`, `NotText` decide kinds and reasons. `SaveImpl` over the bytes of a letter and of a two- and "
        "three-byte character.",
        "27 characters and invalid sequences at every cut of a window, text modes times content types in whole requests, walks of `SaveImpl`.", "As C07; `Save-wide`: three-byte characters."),
"C10": ("Contents are compared with the body's bytes from the current offset; after a stopped save reading goes on at the next byte (`InStep` in `SaveImpl`).",
        "Faults of the transport and of the writer, writers that fail or stop taking bytes after a while, targets that cannot be opened, files that have no room for all of the data (a file size limit on the harness during the save), resuming, repeated names and names that are almost alike, hundreds of files in one directory, empty and odd file names, texts with byte-order marks and blanks at their ends, reading the saved data back in pieces.", "`Save-errors`: up to 2 faults, up to 2 saves of one field."),
"C11": ("`AfterSaveAll`, `AfterKeep`, `AfterDropEnts`: the set of entries is part of the state. `EntriesImpl` (the loop, the map, the count beside it, keeping, dropping and removing) against it.",
        "Numbers of fields against limits, up to four resumed saves with the partial field kept or not and entries removed, thousands of fields by counts, walks of `EntriesImpl`.", "Model: up to 3 fields (4 deep) of two names, limits 0-3, up to 3 saves, one fault (2)."),
"C12": ("`SaveDir`: which directories and files exist after each operation on one of several results that may share a permanent directory. `SaveDirImpl` (the enum of a temporary and a permanent directory, what owns it, what dropping does) against it.",
        "Every history of one directory of up to four operations (saving, saving more, keeping, taking the path or the directory, reading, deleting, dropping, also by unwinding), random ones of several results, hostile names, existing files, relative paths, options for opening that the caller asked for; the scratch directory is listed around every step.", "Model: 2 results (3 deep), up to 3 fields. Scratch directory only, TMPDIR redirected into it."),
"C13": ("`Client.Complete`: the parts of the bytes sent, by `Framing.Parse` and `Headers`, must be the fields written. `ClientImpl` (the writer's segments, `write_all`, copying a stream, the measured buffer) against it.",
        "Sequences of text, stream and file fields, transports that take 1..n bytes per write or are interrupted, the library's own server reading it back, tens of fields, more than 4 GiB by counts, walks of `ClientImpl`.", "Model: 2 fields (3 deep) of 4 kinds, data of up to 2 bytes, short and interrupted reads and writes. Replay: fields up to 128 KB."),
"C14": ("`Client`: reading a prepared request out; the announced length. `ClientImpl` has `PreparedFields` with its joined texts, stack of streams and windows, and a builder that is used again (`Client-again`).",
        "Read-buffer sizes 1-9000, streams with short and interrupted reads and streams that fail and go on, files, tens of fields, more than 4 GiB by counts, permutations of additions, walks of `ClientImpl`.", "As C13."),
"C15": ("`Client`: the headers applied before the first byte, boundary grammar, announced length = bytes sent; boundaries differ between all requests of a trace, made in one thread or several.",
        "Measured, prepared and hyper-measured requests; hyper requests whose type, length and body the caller's closure has set before; boundaries of many requests per thread; walks of `ClientImpl`.", "As C13."),
"C16": ("`Client`: a fault during a call must be reported; `finish` exactly once after the last byte.",
        "Transport faults at every write, failing streams and files that are missing, refused headers, BrokenPipe, walks of `ClientImpl`.", "`Client-errors`: one failure (2 deep) of transport, stream, opening, announcing or finishing, anywhere, and a caller that stops or goes on."),
"C17": ("`Detect`: the content type's grammar decides; what a request must be handed back with. `TypeNotation` enumerates the notations of a content type and its near misses, with the law that recognising inverts writing.",
        "Every notation of the walks of `TypeNotation`; content types with case, spaces, quotes, parameters, near misses; methods; five integrations over real request types and loopback HTTP.", "Boundaries accepted by the dependencies' header types."),
"C18": ("`Intercept`: strict and lenient outcomes as a function of the parsed body and the limits.",
        "Real iron handlers over loopback with every combination of limits around the field sizes and counts, broken bodies, parent directories, walks of `InterceptImpl`.", "`InterceptImpl` (the loops of the strict and lenient modes over a save and its resumption) against the contract: up to 3 fields of 2 names, limits 0-3, one fault."),
"C19": ("Every event carries the number of reads of the source since the last one; `Server.Bounded` limits it, also after the end. Temporal property `Returns` in the design models.",
        "Bodies whole, cut and random, limits 0.., writers that accept nothing or fail for good with every kind of error, all styles, iron, sending; a watchdog turns a hang into an event.", "`Reader-returns`, `Save-returns`, `Entries-returns`, `Client-returns`, `Intercept-returns`: weak fairness."),
"C20": ("`Mock`: stored bytes = written bytes; the tee's two outputs.", "Writes of 1 byte to 64 KiB, inner writers that take less, the mock server read back in pieces.", "`MockImpl` (arbitrary short writes and reads, the tee's two loops) against the contract: up to 4 bytes per write, 3 writes."),
"C21": ("`Bulk` with the documented default limits.", "Fields and requests around 10 KiB, 8 MiB, 256 fields, with nothing configured, one setting made, or the settings and the presets for text called in any order; iron's 2 MiB and 16 fields.", "By counts; contents by pattern."),
"C22": ("`Adapters`: each conversion as a function of the outcome.", "All conversions over results made by real saves and constructed ones, with every kind of I/O error.", "Complete over the conversions of the public API."),
}
