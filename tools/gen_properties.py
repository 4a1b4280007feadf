import json
B="src/server/boundary.rs";F="src/server/field.rs";S="src/server/save.rs";M="src/server/mod.rs"
CM="src/client/mod.rs";CL="src/client/lazy.rs";CS="src/client/sized.rs";CH="src/client/hyper.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))
p("C01","Parsed entries equal the body's parts for every transport chunking",
 "For every well-formed multipart body (each field's header block at most 1000 bytes) and every way the transport splits it into reads, iterating the request yields exactly the body's parts, in order, each with exactly its data bytes, followed by a clean end. This includes empty data and data that starts with, ends with or contains CR, LF, hyphens or any proper prefix of the delimiter. Bytes of the preamble, the delimiters, their line breaks and the epilogue are never delivered as data.",
 ["inputs","schedules"],"all well-formed bodies and boundaries x all partitions of the body into transport reads",
 "The tests try a handful of bodies of under 200 bytes, all of which fit in the 1 KiB minimum buffer, so a delimiter is never really seen across two buffer fills.",
 [B,F,M],[("delimiter search with hold-back of a partial delimiter and of a preceding CRLF",B+": read_to_boundary, find_boundary"),("delimiter verification and consumption",B+": consume_boundary"),("buffer refill below the minimum size",B+": from_reader, set_min_buf_size")],
 [dict(name="search_idx/state",meaning="how much of the buffer is known to be field data and whether a delimiter follows",where=B)],
 ["Multipart::read_entry","MultipartData: Read/BufRead"])
p("C02","How a caller reads one field never changes its bytes or the later fields",
 "A caller may read a field in pieces of any size, peek at the buffered data without consuming it, consume part of what it peeked at, change the minimum buffer size (up to 64 KiB), or abandon the field at any point, in any mixture. The bytes delivered are always exactly the field's next data bytes, a peek never shows anything beyond the field's data, shows at least the minimum buffer size that was asked for less the length of a delimiter unless the data ends before, and repeated peeks never lose bytes, and an empty read or peek means that the field's data is exhausted. Asking for the next entry then always gives exactly the next part of the body, or the end if there is none.",
 ["histories","inputs","schedules"],"all sequences of read/peek/consume/resize/abandon/next-entry calls on well-formed bodies under all transport chunkings",
 "The tests always read a field to its end with the same call, or skip it untouched.",
 [B,F],[("peek/consume bookkeeping",B+": fill_buf, consume"),("discarding unread field data before the next delimiter",B+": consume_boundary"),("minimum buffer size",B+": set_min_buf_size; "+F+": MultipartData::set_min_buf_size")],
 None,["MultipartData: Read/BufRead","Multipart::read_entry"])
p("C03","A truncated or malformed body is never reported as a complete request",
 "If the body stops before its closing delimiter is complete, or a delimiter is followed by two bytes other than CRLF or '--', iterating the request ends in an error and never in a clean end, and asking again keeps giving an error. Everything delivered before the error is exactly the entries and data bytes that precede the damage, no entry is made up, and no call panics. For a field cut off by the truncation, the bytes delivered are a prefix of what was sent for that field.",
 ["crash_points","inputs","schedules"],"every truncation offset of every body, every corruption of delimiter tails, all transport chunkings",
 "Two tests truncate one body at one place; the property is about every offset and every chunking.",
 [B,F],[("end-of-input and delimiter-tail checks",B+": consume_boundary"),("header block limits",F+": with_headers")],None,["Multipart::read_entry"])
p("C04","A transport error is reported and never loses, repeats or invents field data",
 "When the transport returns an I/O error, the call during which that happens reports an error (an Interrupted error may instead be retried internally); it is never turned into the end of a field, the end of the request or an entry. Reading on in the same field afterwards continues at exactly the next undelivered byte. Entries read after the error are genuine parts in body order with their exact data, and at most the entry whose delimiter and headers were being read when the error occurred is missing.",
 ["fault_sequences","inputs","schedules"],"every transport offset at which an error can be raised, transient or repeated, of every error kind, during every operation",
 "No test injects a transport error.",
 [B,F,S],[("error propagation without losing buffered bytes",B+": read_to_boundary, consume_boundary; "+F+": read_headers")],None,["Read::read of the request body","Multipart::read_entry","MultipartData: Read/BufRead"])
p("C05","Field headers are reported exactly as the client declared them",
 "For every entry, the name, optional file name and optional content type are exactly those declared in its header block, independent of header-name case, header order, the order of the Content-Disposition parameters, quoting, and optional spaces after colons and semicolons; a quoted value may contain semicolons, equal signs and parameter names. A file name or content type that was not sent is reported as absent. A block without Content-Disposition, whose disposition is not form-data, that has no name, whose Content-Type is unparseable or that has more than four headers gives an error and not an entry.",
 ["inputs"],"all header blocks built from these elements within the size limits",
 "One test checks case-insensitive lookup of three headers; parameter order, quoting, absence and the error cases are untested.",
 [F],[("header lookup and Content-Disposition parsing",F+": with_headers, ContentDisp::parse_required, get_str_after, parse_content_type")],None,["MultipartField::headers"])
p("C06","All ways of iterating a request give the same entries",
 "Iterating by borrowed entry, by owned entry, by next entry from the current one, in place, or with a callback gives the same sequence of entries, data and final result for the same body. The error and end results hand the reader back in a state from which asking again behaves the same as in any other style. An entry is classified as text exactly if it has no content type or its type is text/*.",
 ["histories","inputs"],"all bodies (well-formed or not) x all iteration styles and mixtures of them",
 "Tests use two styles, each to the end of one well-formed random body.",
 [F,M],[("entry iteration",F+": ReadEntry::read_entry, MultipartField::next_entry, next_entry_inplace; "+M+": read_entry, into_entry, foreach_entry")],None,["ReadEntryResult","MultipartField::is_text"])
p("C07","The per-field size limit is never exceeded and never cuts a field that fits",
 "With a size limit of L bytes, whatever is saved for one field - in memory, in a file or through a writer - never exceeds L bytes and is a prefix of the field's data, for every memory threshold, text mode and transport chunking. The save is reported complete exactly if the field has at most L bytes and nothing else failed; a longer field is reported partial with the size limit as the reason. With no limit a field of any size is saved completely.",
 ["inputs","configurations","schedules"],"all field lengths around the limits x size limit x memory threshold x text mode x chunkings x save targets",
 "No test saves anything to disk or sets a limit.",
 [S],[("limited copy",S+": try_copy_limited, write_to, read_mem"),("hand-over from memory to file",S+": with_path")],None,["SaveBuilder","SaveResult"])
p("C08","Fields within the memory threshold never touch the disk, larger ones do",
 "With a memory threshold of T bytes, a field of at most T bytes is kept in memory and creates no file or directory of its own; so is everything kept of a field when the size limit is not larger than T. A field longer than T with a larger size limit is saved in a file, and with a threshold of 0 every non-empty field is. The placement depends only on the lengths and limits, not on the transport chunking.",
 ["inputs","configurations","schedules"],"all field lengths around the threshold x thresholds x size limits x text modes x chunkings",
 "No test saves a field at all.",
 [S],[("memory phase and spill",S+": with_path, save_mem, save_text, read_mem")],None,["SavedData","the save directory"])
p("C09","Saved text is exactly valid UTF-8 text, and the text mode is honoured",
 "A field kept in memory is reported as text only if text handling applies to it and the bytes kept are valid UTF-8. By default a text field within the memory threshold is reported as text if it is valid UTF-8 and as raw bytes otherwise; with forced text such an invalid field is reported as partial with a UTF-8 error and never as complete, and with text ignored it is always raw bytes; in a whole-request save, fields whose content type is not text/* are never treated as text. This holds wherever multi-byte characters or invalid bytes fall relative to transport reads.",
 ["inputs","configurations","schedules"],"all byte strings around multi-byte characters and invalid sequences x text modes x content types x chunkings",
 "No test saves a field; UTF-8 splitting across reads is untested.",
 [S,F],[("incremental UTF-8 validation",S+": save_text"),("text gating by content type",S+": with_entries; "+F+": is_text")],None,["SavedData::Text/Bytes","PartialReason::Utf8Error"])
p("C10","Saving neither loses, repeats nor alters field data",
 "A complete save contains exactly the field's bytes, and its reported size and its readable contents agree with them. When a save stops early because of a limit, invalid text, a transport error or a file that cannot be created or has no room for the data, what was saved followed by what can still be read from the field is exactly the field's data. Repeated fields of one name are kept in arrival order, and every saved entry keeps its own headers.",
 ["inputs","configurations","fault_sequences","schedules"],"all field contents x save options x transport errors at any offset x unopenable or full targets x chunkings",
 "No test uses the save API.",
 [S],[("copy loops that consume only what was stored",S+": try_read_buf, try_write_all, with_path, write_to"),("entry collection",S+": Entries::push_field, with_entries")],None,["SavedData::readable/size","PartialSavedField"])
p("C11","The field count limit is exact and a stopped save can be resumed without loss",
 "With a count limit of N, a request with at most N fields is saved completely, and a request with more stops after exactly N saved fields with the count limit as the reason; the reported count always equals the number of saved fields. After a save stops for any limit, continuing with the same entries (with room made, for a count limit) saves exactly the fields not yet handed out: no field is saved twice, and every field is either in the entries or was handed to the caller as the partial field.",
 ["histories","inputs","configurations"],"all numbers of fields x count limits x stop/resume histories",
 "No test uses a count limit or resumes a save.",
 [S],[("save loop and resumption",S+": with_entries, keep_partial, recount_fields")],[dict(name="fields_count",meaning="number of saved fields, maintained separately",where=S)],["SaveResult::Partial","Entries::fields_count"])
p("C12","Saved files stay where chosen, are never clobbered, and live as promised",
 "Every file a save creates lies in the directory, or at the path, the caller chose (the OS temporary directory for the temporary forms, in a directory with the caller's prefix if one is given), independent of the client's names; distinct fields get distinct files, and an already existing file is never overwritten or truncated by default. A permanent save directory that is missing is created. A temporary save directory and its contents disappear when the result is dropped or deleted, and persist unchanged once it has been made permanent; a permanent directory persists until explicitly deleted.",
 ["inputs","histories","configurations"],"all client-supplied names x save targets x lifecycle call sequences, of one or several results",
 "No test looks at the file system.",
 [S],[("exclusive creation",S+": SaveBuilder::new open options"),("path choice",S+": with_dir, with_filename, temp, temp_with_prefix"),("directory lifecycle",S+": SaveDir")],None,["file system under the save directory"])
p("C13","What the streaming client sends is parsed back as exactly the fields written",
 "For every sequence of text, file and stream fields with ordinary names (no quotes, line breaks or control characters) and every pattern of short writes by the transport, the bytes sent form a complete multipart body whose parts are exactly the fields written, in order, with exactly the given names, file names, content types and data. Stream fields always carry a content type, text fields none; a request with no fields is a complete empty request. This library's own server side reads back the same fields.",
 ["inputs","schedules","programs"],"all field sequences x short-write patterns x direct and measured sending",
 "The local tests send one to three random alphanumeric fields of at most 12 bytes per run.",
 [CM,CS],[("part framing",CM+": MultipartWriter"),("measured sending",CS+": SizedRequest")],None,["HttpStream::write"])
p("C14","A prepared (lazy) request reads out as exactly the added fields",
 "For every set of added text, file and stream fields with ordinary names and every sequence of read-buffer sizes used to read it out, the prepared body is a complete multipart body with exactly the added fields: each once, with exactly its name, file name, content type and data, text fields in the order added. Interrupted reads, short reads and failures of a stream do not lose or repeat bytes (reading on after an error continues at the next byte), the total length equals the announced length whenever one is announced, and one is announced exactly when no generic stream was added. A request with no fields is a complete empty request, and a builder that is used again after a request was prepared holds only what was added since.",
 ["inputs","schedules","fault_sequences","programs"],"all field sets x read-buffer size sequences x short/interrupted stream reads",
 "The local tests always include a stream, so no length is ever announced, and read the body with one fixed call.",
 [CL],[("preparation and length",CL+": PreparedFields::from_fields"),("read-out",CL+": PreparedFields::read, PreparedField::read")],None,["PreparedFields: Read","PreparedFields::content_len"])
p("C15","The headers a client announces match the body it sends",
 "Every client request announces its boundary exactly once, before any body byte is sent, and it is the boundary used in the body, valid for a Content-Type header (1 to 70 token characters) and different for every request, also of one builder used again and of requests made in several threads. When a content length is announced - measured requests, lazily prepared requests of text and files, and the hyper integration - it equals the number of body bytes sent; requests with unmeasured content announce none. A measured request that refuses its headers is reported as an error and sends nothing.",
 ["inputs","programs","schedules"],"all field sequences x sending modes x transports",
 "No test looks at announced headers of a text-only or measured request.",
 [CM,CL,CS,CH,"src/mock.rs"],[("header application",CM+": open_stream; "+CS+": finish; "+CL+": send, prepare; "+CH+": apply_headers")],None,["HttpRequest::apply_headers/open_stream","the bytes on the wire"])
p("C16","A client request that could not be sent completely is never reported as sent",
 "If the transport, a file or a stream fails at any point while a field is written or the request is finished, the call during which that happens returns an error, and if the closing delimiter could not be written the request is not finished and no response is returned. In a lazy request a file that cannot be opened is reported by name and nothing is sent. Whenever sending succeeds after all writes succeeded, the transport has received the complete body and was finished exactly once, after the last byte.",
 ["fault_sequences","inputs","programs"],"every offset at which the transport or a source can fail x all sending modes",
 "No test injects a failure on the client side.",
 [CM,CL,CS],[("error propagation",CM+": map_self, chain_result, finish; "+CL+": try_lazy, send; "+CS+": finish")],None,["Result of write_*/send"])
p("C17","Requests are recognised as multipart exactly when they are",
 "In each server integration (hyper, iron, nickel, tiny_http, mock) a POST request with content type multipart/form-data and a boundary parameter is recognised, with exactly the declared boundary whether quoted or not, and its body is read from its first byte. A request with another or no content type, or without a boundary, is not treated as multipart and is handed back untouched; hyper also refuses methods other than POST. The hyper dispatcher calls exactly the matching one of its two handlers.",
 ["inputs","configurations"],"all combinations of integration x method x content type x boundary notation",
 "No test exercises any server integration.",
 [M,"src/server/hyper.rs","src/server/iron.rs","src/server/nickel.rs","src/server/tiny_http.rs","src/mock.rs"],[("boundary extraction","multipart_boundary in each integration"),("dispatch","src/server/hyper.rs: Switch")],None,["Multipart::from_request","Switch"])
p("C18","The iron middleware enforces its limits as configured",
 "The iron middleware stores all fields of a multipart request that is within its file size and count limits and leaves other requests alone. In strict mode a request exceeding a limit is refused with the error for that limit, naming the offending field or the count, and nothing of it remains on disk; in lenient mode the request is accepted with every kept field cut to at most the size limit and at most the count limit of fields, the first ones of the request. Broken requests are refused in both modes, the configured parent directory is created when missing, and temporary files vanish with the request.",
 ["inputs","configurations"],"all field sizes and counts around the limits x both behaviours",
 "The middleware is only compiled (a doc test), never run.",
 ["src/server/iron.rs",S],[("limit handling","src/server/iron.rs: read_request_strict, read_request_lenient")],None,["Intercept::before","request extensions"])
p("C19","Every operation on a finite request returns",
 "For every finite body, well-formed or not, and every combination of limits, text modes, behaviours and iteration styles, each operation - reading, skipping, iterating with a callback, saving a field or a request, resuming, the iron middleware, sending - returns after a bounded number of reads of its source, also after the source has ended or failed.",
 ["inputs","configurations","histories","fault_sequences"],"all finite bodies x all operations and options",
 "The tests only run inputs that finish.",
 [B,F,S,"src/server/iron.rs",CL],[("progress of the search and copy loops",B+": consume_boundary; "+F+": with_headers; "+S+": try_read_buf, save_text, with_entries; src/server/iron.rs: read_request_lenient; "+CL+": PreparedFields::read")],None,["return of each call"])
p("C20","The mock transports carry every byte unchanged",
 "The mock client stream stores exactly the bytes written to it, in order, however few bytes each write accepts, and accepts at least one byte of any non-empty write; the mock server request delivers exactly the stored bytes, in order, then end of input, and carries boundary and length over. The tee writer passes exactly the same bytes to its inner writer and to standard output, and a flush, too, whose failure it reports.",
 ["inputs","schedules"],"all byte strings x all write/read sizes x all random short I/O choices",
 "The mocks are used by the tests but only through random data of a few bytes; the tee writer is never tested.",
 ["src/mock.rs"],[("random short I/O","src/mock.rs: HttpBuffer::write, ServerRequest::read"),("duplication","src/mock.rs: StdoutTee::write")],None,["HttpBuffer::buf","ServerRequest: Read"])
p("C21","Saves that nothing was configured for are bounded by the built-in limits",
 "A save whose caller set no limits never stores more than 8 MiB of one field, never more than 256 fields of one request, and keeps a field in memory only if it has at most 10 KiB; a request within these limits is saved completely, field for field and byte for byte, and one beyond them stops with the limit as the reason. Setting one of the limits, or the text mode, leaves the others as they were. The iron middleware's defaults (2 MiB per field, 16 fields, refusing what exceeds them) hold in the same way.",
 ["inputs","configurations"],"all field sizes and counts around the defaults x subsets of options left unset x transport chunkings",
 "No test saves anything; fields of megabytes and requests of hundreds of fields never occur.",
 [S,"src/server/iron.rs"],[("built-in limits",S+": SaveBuilder::new"),("setters that leave the other settings alone",S+": size_limit, memory_threshold, try_text, force_text, ignore_text, count_limit, mod_open_opts"),("middleware defaults","src/server/iron.rs: Intercept::default")],None,["SaveResult","Entries","SavedData"])
p("C22","Converting a result never changes the outcome it stands for",
 "Every conversion of a save result keeps what was saved and how the save ended: a complete result stays complete, a partial result never passes as complete where an error is promised (the strict conversion, unwrapping), the saved part of a partial result is handed over unchanged by the lenient ones, errors keep their message, and mapping changes the contents and nothing else. Keeping the partial field adds exactly that field to the saved entries; discarding it leaves them unchanged. Converting the answer to asking for an entry never turns an error into the end of the request or an entry into either. Saved data reads back as exactly its bytes, however it is read, and the entries' emptiness and recounted number are those of the fields they hold.",
 ["inputs","histories"],"all results (complete, partial for each reason, failed) x all conversions and chains of them x all saved contents x read patterns",
 "No test converts a save result; entry results are only unwrapped when they are entries.",
 [S,F],[("conversions of save results",S+": SaveResult, PartialReason, PartialEntries"),("conversions of entry results",F+": ReadEntryResult"),("reading saved data",S+": SavedData, DataReader"),("counting and listing",S+": Entries")],None,["SaveResult","PartialReason","PartialEntries","ReadEntryResult","SavedData","Entries"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
