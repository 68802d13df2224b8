#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  The text lives here so that it can be edited as prose."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

WIRED = "crates/wired-mbus-link-layer/src/lib.rs"
WLESS = "crates/wireless-mbus-link-layer/src/lib.rs"
CORE = "crates/m-bus-core/src/lib.rs"
DEC = "crates/m-bus-core/src/decryption.rs"
APP = "crates/m-bus-application-layer/src/lib.rs"
DI = "crates/m-bus-application-layer/src/data_information.rs"
DR = "crates/m-bus-application-layer/src/data_record.rs"
VI = "crates/m-bus-application-layer/src/value_information.rs"
VU = "crates/m-bus-application-layer/src/variable_user_data.rs"
ELL = "crates/m-bus-application-layer/src/extended_link_layer.rs"
OUT = "src/output.rs"
MD = "src/mbus_data.rs"
ANN = "src/annotate.rs"
XML = "src/rscada_xml.rs"
CLI = "cli/src/main.rs"

prop("C01", "Intact wired telegrams are delivered exactly as sent",
 "Every wired telegram that reaches the receiver unchanged (single character, short, control or long, of any length the link layer allows) is accepted, and its kind, function code with its flag bits, address and user payload are reported exactly as the sender encoded them. This holds whatever was lost, damaged, duplicated, delayed or reordered around it.",
 ["inputs", "histories", "fault_sequences"],
 "all well-formed wired telegrams, inside all traffic histories and channel fault sequences",
 "The tests parse a few hundred captured frames, one at a time; they never vary length, address and function together and never surround a good frame with damaged traffic.",
 [WIRED, CORE, MD, OUT],
 [("frame recognition", WIRED), ("function and address tables", CORE), ("canonical frame section", OUT)],
 ["frame parser result", "canonical output: link layer section"])

prop("C02", "Damaged wired telegrams are never accepted",
 "A byte sequence that is not exactly one complete wired telegram (right start bytes, both length bytes equal and matching the received length, correct checksum, stop byte, known function code) is rejected with an error. It is never reported as a wired telegram or wired reading, by the frame parser or by the high-level decoder.",
 ["inputs", "fault_sequences"],
 "all telegrams and all channel fault sequences: bit flips, bursts, truncation, insertion, concatenation, splicing, stale tails",
 "The tests contain a handful of hand-made bad frames; the acceptance boundary is a relation between five bytes and a length that only a systematic adversarial channel explores.",
 [WIRED, CORE, OUT],
 [("checksum, length and stop-byte checks", WIRED)],
 ["frame parser result", "decoder error code"])

prop("C03", "Intact wireless telegrams are delivered exactly as sent",
 "Every wireless telegram that arrives unchanged, with its CRC blocks (frame format A), with only the first block's CRC, with one trailing CRC, or with the CRCs already removed by the radio, is decoded to exactly the control field, meter address and payload that were sent. The CRC-free form the decoder reports equals the telegram the meter built before CRCs were added.",
 ["inputs", "histories", "fault_sequences"],
 "all well-formed wireless telegrams in the four encodings, all lengths, inside all traffic histories",
 "Captured frames cover a few lengths and manufacturers; block boundaries (multiples of 16, last short block) are not varied.",
 [WLESS, CORE, OUT],
 [("CRC removal and frame parsing", WLESS), ("normalised frame", OUT)],
 ["frame parser result", "CRC removal output", "canonical output: wireless link section"])

prop("C04", "A radio telegram with a damaged CRC block is never passed on as checked",
 "When any CRC-protected block of a frame format A telegram is damaged, cut short or followed by stray bytes, CRC removal refuses the telegram rather than returning unverified bytes, and the decoder reports an error. A payload different from what the meter sent is never returned as a CRC-checked telegram.",
 ["inputs", "fault_sequences"],
 "all format A telegrams and all channel fault sequences acting on any block",
 "The tests strip CRCs from intact captures only; no test damages a later block.",
 [WLESS, OUT],
 [("per-block CRC check", WLESS)],
 ["CRC removal result", "decoder result"])

prop("C05", "No received bytes can crash or hang the receiver",
 "For every byte sequence and every text input, every public parsing, decoding, decrypting, annotating and rendering operation returns a value or an error; it never panics, never overflows arithmetic and never runs without end. Iterating over records always ends after at most as many steps as there are payload bytes.",
 ["inputs", "fault_sequences", "configurations"],
 "all byte strings up to the size of a long radio telegram, reached by damaging realistic telegrams, for every entry point, output format and option",
 "The tests feed valid or lightly malformed captures; crash inputs need a specific header byte at a specific remaining length.",
 [WIRED, WLESS, DEC, APP, DI, DR, VI, VU, ELL, OUT, MD, ANN, XML],
 [("checked slice access and typed errors in every layer", "all listed files")],
 ["process outcome", "step counts"])

prop("C06", "Numeric readings are exact",
 "Every number in a record (binary integer, BCD, floating point, or variable-length number, any width and sign) is reported as exactly the decimal value the meter encoded after applying the power of ten and the additive or multiplicative corrections its value header states. No reading is rounded, mis-signed, mis-scaled or byte-swapped, whatever records precede it.",
 ["inputs", "histories"],
 "all record codings, values, scale codes and correction codes, in all record sequences",
 "Golden files fix a few hundred values; sign boundaries, 48/64-bit and long BCD numbers and correction codes are combinations the captures do not contain.",
 [DI, DR, VI, OUT],
 [("data field decoding", DI), ("scale and offset from value header", VI), ("exact decimal rendering", OUT)],
 ["canonical output: record value", "low-level record value"])

prop("C07", "Readings are attributed to the right register, quantity and unit",
 "Each record is reported with exactly the storage number, tariff, subunit and function (instantaneous, minimum, maximum, error) its data header encodes, for any number of header extension bytes. Its quantity names and unit are exactly the ones the value header's codes stand for, including all combinable extension codes in order.",
 ["inputs", "histories"],
 "all data headers with any number of extensions and all value headers with any chain of extensions, in all record sequences",
 "Captured frames use one or two extensions and a small set of unit codes.",
 [DI, DR, VI, OUT],
 [("header extension accumulation", DI), ("unit and label tables", VI), ("canonical record fields", OUT)],
 ["canonical output: record attributes"])

prop("C08", "Dates and times are reported as the meter sent them",
 "A date, date-time or date-time-with-seconds record is reported with exactly the calendar fields the meter encoded, including the every-day, every-month, every-year, every-hour and every-minute wildcards. A calendar field the coding cannot express is never reported as some other calendar value, and the record always occupies exactly the bytes its data header states.",
 ["inputs", "histories"],
 "all calendar encodings of the two-, four- and six-byte date types, all field values including wildcards and impossible combinations",
 "Tests contain a few recent dates; month ends, wildcards, year rollover and length mismatches are not exercised.",
 [DI, DR, OUT],
 [("date field extraction", DI), ("calendar validation", OUT)],
 ["canonical output: record value"])

prop("C09", "Every payload byte is accounted for, in order, exactly once",
 "Concatenating the raw header and data bytes reported for the records of a completely decoded payload reproduces the payload byte for byte, apart from idle filler and reserved special-function bytes. Text and manufacturer-specific data are reported with exactly the bytes that were sent.",
 ["inputs", "histories"],
 "all record sequences of any length, including fillers, variable-length fields, manufacturer-specific tails and more-records markers",
 "A conservation law over arbitrary sequences; tests compare selected fields of fixed captures.",
 [VU, DR, DI, OUT, APP],
 [("record iteration and offsets", APP), ("record size computation", DR)],
 ["canonical output: raw hex of each record", "low-level raw bytes"])

prop("C10", "A telegram cut short yields an exact prefix and says so",
 "When the record payload ends early, all records completely received before the cut are reported unchanged, nothing is invented for the missing part, and the result is marked partial with a diagnostic that states the byte offset where decoding stopped. When the payload is complete it is never marked partial.",
 ["inputs", "crash_points", "fault_sequences"],
 "all record payloads and all cut points",
 "Each telegram has as many cut points as bytes; tests cut a couple of frames at one place.",
 [VU, DR, APP, OUT],
 [("length checks before decoding each record", DR), ("partial state and diagnostics", OUT)],
 ["canonical output: records, decode state, diagnostics", "record-list decoding error"])

prop("C11", "Damage inside one record's value leaves all other records unchanged",
 "If the value bytes of a fixed-length record are altered while its header is intact, every earlier record is reported exactly as without the damage, and every later record too unless the damaged value is itself undecodable, in which case decoding stops there with a diagnostic. Records are decoded the same whether alone or in any sequence.",
 ["inputs", "fault_sequences", "histories"],
 "all record sequences, all positions, all damage patterns within value bytes, all orders of the same records",
 "Requires comparing runs that differ in one injected fault or one permutation.",
 [VU, DR, DI, APP, OUT],
 [("record boundaries depend on headers only", DR)],
 ["canonical output: records"])

prop("C12", "Record readers can be cloned, abandoned and interleaved freely",
 "Any number of readers over the same received payload, stepped in any order, cloned at any point or dropped half way, each yield exactly the sequence a single uninterrupted reader yields, and stay finished once finished or failed.",
 ["schedules", "inputs"],
 "all interleavings of step, clone, drop and restart operations over several readers, on one or several threads",
 "Tests always consume an iterator once from start to end.",
 [VU, APP],
 [("iterator owns its own offset over a shared immutable slice", VU)],
 ["items produced by each reader"])

prop("C13", "With the right key, encrypted telegrams decode to the plaintext readings",
 "A telegram encrypted with a supported AES mode and decoded with the meter's key yields the same records, and the same bytes from the low-level decryption call, as the unencrypted payload, for every header kind, length and access number. The result says it was decrypted.",
 ["inputs", "histories", "configurations"],
 "all keys, identities, access numbers, payload lengths (including unencrypted tails), header kinds and supported modes, in any order of meters",
 "Tests decrypt a few captures with fixed keys and identities.",
 [DEC, APP, MD, OUT],
 [("initialisation vector from meter identity", DEC), ("block count handling", DEC)],
 ["decrypted bytes", "canonical output: records and security section"])

prop("C14", "Without the right key no reading is reported from an encrypted telegram",
 "An encrypted telegram decoded without a key yields no records from the high-level decoder or the application layer's record access, and is marked partial with a missing-key diagnostic; a failing key source, an unsupported mode or a too small buffer yields an error and no records. A result that relied on decryption is never reported as verified cleartext, and ciphertext is never interpreted as records.",
 ["inputs", "fault_sequences", "configurations"],
 "all encrypted telegrams and all key-source faults: absent, wrong, late, wrong length, error",
 "Tests cover a missing key for one capture.",
 [DEC, APP, MD, OUT],
 [("encrypted payloads expose no records", APP), ("typed decryption errors", DEC)],
 ["canonical output: records, decode state, diagnostics", "decryption error"])

prop("C15", "The key store answers like a map under any history of operations",
 "After any sequence of additions and lookups, a lookup for a meter returns the first key stored for exactly that manufacturer and device number, and an error if there is none. A full store refuses additions with an error and keeps answering as before.",
 ["histories"],
 "all sequences of additions, lookups and clones-by-reconstruction, for several capacities, including colliding and near-colliding identities",
 "Two-step unit tests; nothing checks long histories against a model.",
 [DEC],
 [("fixed-capacity store", DEC)],
 ["lookup result", "addition result"])

prop("C16", "Decoding depends only on the bytes and options, not on history or thread",
 "Decoding or rendering the same bytes with the same options always gives the same result, whatever was decoded before, on whichever thread, concurrently with anything else, and after a restart. Inputs are never modified.",
 ["schedules", "histories"],
 "all interleavings of requests over several worker threads and restarts",
 "Each test is a single call; no test compares the same request under different histories or schedules.",
 [OUT, MD, APP, ANN, XML],
 [("no shared mutable state", "all listed files")],
 ["rendered output", "decoded structures"])

prop("C17", "All output formats tell the same story",
 "For every telegram that decodes, the JSON and YAML documents are the same value, the decode call serialises to that value, and the CSV row agrees with it on every frame column and, per record, on storage number, tariff, subunit, function, quantity, value, unit, coding and raw bytes. The XML, table and diagram renderings and the older documents list the same records in the same order; a value the XML gives for a plain reading is the same value. JSON, YAML, CSV, table and diagram accept exactly the inputs the decode call accepts; no format accepts bytes that are not a telegram. Each format answers to the name it reports.",
 ["inputs", "configurations", "fault_sequences"],
 "all telegrams (intact and damaged), all output formats and options",
 "Golden files compare each format separately for a few frames.",
 [OUT, XML, MD],
 [("renderers share one decoded model", OUT)],
 ["rendered documents"])

prop("C18", "Hex text is understood strictly and identically in every spelling",
 "Any supported spelling of the same bytes (compact, spaced, colon or dash separated, prefixed, any letter case, surrounded by blanks) decodes to exactly those bytes. Text torn, garbled or truncated into something that is not whole bytes is rejected with an error, never silently repaired or shortened.",
 ["inputs", "fault_sequences"],
 "all byte strings, all spellings, all damage to the text (lost, duplicated, replaced, inserted characters, torn reads)",
 "A few literal strings are tested.",
 [OUT, "python/src/lib.rs"],
 [("strict tokenising", OUT)],
 ["decoded bytes", "error code and offset"])

prop("C19", "Byte annotations tile the received telegram",
 "For every telegram that can be annotated, the annotated segments start at the first byte, follow one another without gap or overlap, and end at the last byte, in every format variant. The bytes shown for each segment are the telegram's bytes at that position, and the bytes of each data record carry that record's number. Every byte of an intact telegram is labelled as the field and protocol layer it belongs to (link layer field, header field, part of a record, check sum, filler, manufacturer data); bytes that are still encrypted are labelled as encrypted and carry no record number.",
 ["inputs", "fault_sequences"],
 "all telegrams, intact and damaged, wired and wireless, with and without key",
 "Tests check a few captures.",
 [ANN, MD, OUT],
 [("sequential segment builder", ANN)],
 ["segment list", "annotated rendering"])

prop("C20", "Rendered documents stay well-formed whatever a meter sends",
 "Whatever text or binary data a telegram carries, JSON, YAML and XML output parse as such documents, CSV output is rectangular with the documented header, and every table line stays within the requested width and between the borders of its box. Diagrams are closed flow charts: every box opened is closed, no box is declared twice and every link joins boxes that exist. Text sent by the meter can be recovered from the JSON, YAML and CSV documents unchanged.",
 ["inputs", "fault_sequences", "configurations"],
 "all telegrams including hostile text (quotes, separators, markup, control and non-ASCII characters), all widths",
 "Captures contain plain text only.",
 [OUT, XML, MD],
 [("escaping in each renderer", OUT)],
 ["rendered documents"])

prop("C21", "The command line tool never loses or invents output under I/O faults",
 "The command line tool exits with success only if the complete output for the given input was written, and that output equals the library's rendering. Interrupted or short reads and writes change nothing; a failing read, a full disk or a closed pipe leads to a non-zero exit with a message, never to a crash or a success with missing output. Settings in the environment do not change what is written to a file or pipe.",
 ["fault_sequences", "configurations"],
 "all inputs and options, all sequences of injected read, write and open faults",
 "The tests do not run the tool under failing I/O.",
 [CLI],
 [("error handling around reading and printing", CLI)],
 ["exit status", "standard output", "standard error"])

prop("C22", "A failing output sink surfaces as an error with a clean prefix",
 "When the text or serialisation sink passed to a formatting operation fails at any point, the operation returns an error, does not crash, and everything written before the failure is a prefix of the full output. A later attempt with a healthy sink gives the full output.",
 ["fault_sequences", "inputs"],
 "all formatted values reached from telegrams and all failure positions",
 "Tests only format into growing strings.",
 [CORE, APP, DI, VI, VU, WIRED, WLESS, OUT],
 [("error propagation in formatters and serialisers", "all listed files")],
 ["returned error", "bytes received by the sink"])

prop("C23", "Low-level parsing works with no memory allocation at all",
 "Parsing frames, removing CRCs, parsing the application layer, looking up keys, decrypting into a caller's buffer and iterating over records succeed with the same results when every heap allocation would fail.",
 ["inputs", "fault_sequences"],
 "all telegrams, intact and damaged, with the allocator failing at every call",
 "Nothing counts or denies allocations in the tests.",
 [WIRED, WLESS, DEC, APP, DI, DR, VI, VU],
 [("fixed-size storage in the no-std layers", "all listed files")],
 ["allocation counter", "results with and without allocation"])

prop("C24", "Reused buffers never leak earlier telegrams into later ones",
 "Removing CRCs or decrypting into a caller's buffer gives a result that depends only on the telegram and key, never on the buffer's previous contents or spare room. A buffer that is too small leads to an error, and bytes beyond the result are left as they were.",
 ["histories", "inputs"],
 "all histories of telegrams of different sizes through one buffer of any size",
 "Tests use a fresh zeroed buffer for each call.",
 [WLESS, DEC, APP],
 [("length returned with the filled slice", WLESS), ("output length check", DEC)],
 ["returned slice", "whole buffer before and after"])

prop("C25", "Readings are attributed to the meter that sent them",
 "In any mix of telegrams from many meters, each result names the device number, manufacturer, version, device type, access number, status and security configuration of the telegram it came from, taken from the header that carries them (radio link header, long or short application header, extended link layer, fixed structure). Application data of a kind the parser does not interpret yields no header, identity or readings of its own and is reported partial. No field is taken from another header or another telegram, and a device number that is no decimal number is not reported as one. A key or information about the manufacturer, when asked for, changes none of these fields, and that information is about the manufacturer named.",
 ["inputs", "histories", "fault_sequences"],
 "all identities and header kinds, in all interleavings of meters, with loss, duplication and reordering",
 "Tests check the identity of a few captures.",
 [CORE, APP, ELL, OUT, MD],
 [("header field extraction", APP), ("identity section", OUT)],
 ["canonical output: meter section", "low-level headers"])

prop("C26", "A polled readout collects every record exactly once despite faults",
 "A master that polls a meter with the standard toggle-bit protocol, and takes from the parser whether a reply is valid, which telegram it is and whether more records follow, ends up with every record of the readout exactly once and in order once faults stop, after a bounded number of polls. No damaged, duplicated or stale reply is ever counted.",
 ["schedules", "fault_sequences", "crash_points"],
 "all loss, duplication, delay, damage and restart sequences on the bus, followed by a fault-free period",
 "A multi-step protocol over many telegrams; tests parse single telegrams.",
 [WIRED, CORE, APP, VU, OUT],
 [("acceptance of replies", WIRED), ("access number in header", APP), ("more-records marker", APP)],
 ["records collected by the simulated master"])

prop("C27", "Manufacturer names match the published registry",
 "The manufacturer name, website and description added to an identified meter are those registered for its three-letter code.",
 ["inputs"],
 "all manufacturer codes",
 "A constant table; comparing it with the registry needs the registry, not an execution.",
 ["src/manufacturers.rs"],
 [("lookup table", "src/manufacturers.rs")])

prop("C28", "Syntax highlighting preserves the source text",
 "Highlighting any text in any language, supported or not, succeeds and returns balanced markup whose text content is exactly the given text: nothing lost, added, reordered or left unescaped. The result depends only on the text and the language, not on what was highlighted before.",
 ["inputs", "histories", "fault_sequences"],
 "all documents (rendered, cut or garbled on the way to the page) and language names, in any order",
 "Tests highlight four small well-formed documents and count lines.",
 ["wasm/src/highlight.rs", "wasm/src/lib.rs"],
 [("bundled grammar set", "wasm/src/highlight.rs"), ("CSV column markup", "wasm/src/highlight.rs"), ("escaping", "wasm/src/highlight.rs")],
 ["m_bus_highlight"])

prop("C29", "The Python and JavaScript bindings answer like the library",
 "For any telegram, damaged or not, given as hexadecimal text, bytes or another bytes-like Python object, with or without a key, the Python functions return exactly the document, records or rendering the library returns for the same bytes and options, and raise an error carrying the library's error code exactly where the library refuses. The JavaScript rendering functions return exactly the library's rendering. No argument makes a binding crash, panic or return something else, and no earlier call changes the answer.",
 ["inputs", "configurations", "histories", "fault_sequences"],
 "all telegrams, argument spellings and option combinations; histories of calls in one interpreter, failures included",
 "The bindings' tests make a handful of calls on good telegrams and check a few fields; nothing compares a binding with the library on arbitrary input.",
 ["python/src/lib.rs", "wasm/src/lib.rs"],
 [("argument conversion", "python/src/lib.rs"), ("error mapping", "python/src/lib.rs"), ("options passed through", "wasm/src/lib.rs")],
 ["parse", "render", "parse_application_layer", "m_bus_render", "m_bus_parse"])

prop("C30", "Built for plain text units before their extensions, such telegrams read alike",
 "In a build with the feature plaintext-before-extension, a telegram whose records carry the length and text of a plain text unit before the unit's extension codes is read like any other: values, storage number, tariff, function, quantity and unit are those the meter sent, every payload byte is accounted for, a cut telegram yields the records before the cut and is reported partial, damage to one record's data leaves the others alone, all formats agree, and annotations label the text and the extension codes at their own positions.",
 ["inputs", "fault_sequences", "configurations"],
 "all telegrams in the text-first layout, intact, cut and damaged, in the build with that feature",
 "The feature is off in the tests of most crates; its own tests read a few value information blocks, not telegrams.",
 [VI, DR, ANN, OUT],
 [("text-first layout of the value information block", VI), ("record length", DR), ("segment order", ANN)],
 ["records", "canonical output", "segment list"])

path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(path, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
