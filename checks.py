"""Registry of the checks: sources, evidence level and the text that goes in MANIFEST.json."""
CHECKS = {}
NOT_APPLICABLE = {}


def check(pid, src, rule, note, technique="bounded exhaustive enumeration of operation sequences on the real code",
          level="exploration", **kw):
    CHECKS[pid] = dict(src=src, rule=rule, note=note, technique=technique, level=level, **kw)


check("C01", ["c01.cpp", "flushctl.cpp"],
      rule="one execution per element of the enumerated product: channel-type triples, group structures x save orders, sample counts "
           "and record sizes, with and without compression and background flushes; distinct = distinct read-back contents",
      note="Every enumerated recording is written and read back by the real library; values compared with the generator. "
           "Bounds: <= 3 data channels per group of the type product, <= 3 groups, <= 6 samples of every order, single-dimension sweeps of sizes.")
check("C02", ["c02.cpp", "flushctl.cpp"],
      rule="one execution per element of the enumerated product: MDF 3 channel-type triples, group structures x save orders, "
           "flush points, text attributes; distinct = distinct read-back contents",
      note="As C01 for the MDF 3 writer.")
check("C05", ["c05.cpp", "flushctl.cpp"], rule="one recording per enumerated combination (every set of at most 3 (thorough: 4) of 25 format features, all small group "
      "structures x save orders x flush points, bus loggers x storage forms), each finished file fully parsed by an independent MDF 4 checker; distinct = distinct files",
      note="The independent parser (mc/mdf4parse.h, no library code) checks every block, link, length, counter and offset of each finished file.")
check("C08", ["c08.cpp", "flushctl.cpp"], rule="one recording per enumerated combination of flagged channels, validity patterns, validity histories, numbers of invalidation bits "
      "and array sizes, written and read back; distinct = distinct read-back contents",
      note="Bounds: every flagged subset and pattern of <= 5 (thorough 7) channels of 9 kinds, 1-34 (70) invalidation bits, every history of <= 5 (6) samples of two flagged channels, arrays of <= 10 elements.")
check("C09", ["c09.cpp", "flushctl.cpp"], rule="one recording per sequence of value lengths x channel arrangement x storage form (signal data, variable-length record group, maximum length) x compression x flush; "
      "each read directly, by the complete offset list, in reverse and by every subset of offsets; distinct = distinct read-back contents",
      note="Bounds: sequences of <= 4 (thorough 5) values with lengths from {0,1,3,4,5,27,130} or {0,1,7,8,9,64}; up to 10 MB of signal data for the list forms.")
check("C11", ["c11.cpp", "flushctl.cpp"], rule="one case per byte sequence (all words of <= 7 (thorough 9) letters over {0,1,255}, all sizes around the internal limits x 4 content classes) through every "
      "compress x decompress entry point, every data size x record size transposition, and pairs of recordings with/without compression; distinct = distinct compressed images / contents",
      note="Every pair of the 6 compress and 5 decompress entry points is executed; recordings up to 8 MB, variable-length data up to 8 MB.")
check("C19", ["c19.cpp"], rule="one file per size x content class x embedding, and per list of <= 3 (thorough 4) attachments over 6 kinds; each exported to file and to stream; distinct = distinct exported contents",
      note="Sizes 0-130 and around every chunk limit up to 5 MB; MD5 compared with an independent implementation.")
check("C04", ["c04.cpp", "flushctl.cpp"], rule="one recording per sequence of <= 3 (thorough 4) queued timestamps (steps 0/1/2) x pre-trigger time x start offset x every set of <= 2 (3) deviations in writer, group layout, "
      "flush points, start-time form, time base, master channel form, timer setting; plus long queues; distinct = distinct stored contents",
      note="Bounds: non-decreasing timestamps, start not before the last queued sample, start time > 0; expected content computed by an independent reference.")
check("C03", ["c03.cpp", "ctlsched.cpp"], variant="sched", technique="stateless exploration of all thread interleavings under a controlled scheduler (bounded preemptions and timer expirations) with happens-before race detection",
      rule="one execution per schedule: every schedule with at most 1 preemption and 1 expiration of the periodic timer, and with 0 preemptions and 2 expirations (thorough also 2 preemptions and 1 expiration), of 14 recording plans "
      "(1-2 saving threads, start during saving, MDF 3/4/converter writers, compression, several groups); distinct = distinct schedules",
      note="The real library runs under mc/ctlsched.cpp: one thread at a time, a decision before each lock, condition, thread and atomic operation. Each finished file is compared with the samples handed over; deadlock and data races are violations.")
check("C10", ["c10.cpp"], rule="one file per data-section arrangement, made by an independent MDF 4 builder: every subset of cut positions of short sorted streams and signal data x encodings x list forms, every set of <= 2 cuts of "
      "unsorted streams x record id sizes x interleavings, empty blocks at every position, all block sizes of longer streams, LD/DV lists; each read completely, per channel, partially and by offset; distinct = distinct arrangements with their values",
      note="Bounds: sorted streams of <= 4 (thorough 5) records with all 2^(n-1) cut sets, unsorted streams of 3 (4) records, block sizes 1-40 on streams up to 400 records.")
check("C12", ["c12.cpp", "flushctl.cpp"], rule="one recording per storage form (12) x compression x flush x save order; on each, every range (first,last) of 0..n+2 is read with every channel subscribed and with each channel alone and compared with a full read; distinct = distinct contents",
      note="Bounds: <= 7 (thorough 9) samples of one group, every interleaving of 6 (8) samples of two and 5 (7) of three groups, plus recordings of 300-3000 samples with 7 ranges. Ranges count samples from one.")
check("C13", ["c13.cpp", "flushctl.cpp"], rule="on recordings of 12 storage forms: every subset of (<= 9) channels, every sequence of 4 (thorough 5) operations out of 11 (subscribe/remove/detach/read/partial read/clear) on three subscriptions, every stop position of a read callback "
      "x save order; each compared with every channel read alone by a reader of its own; distinct = distinct contents / sequences",
      note="The reference is a fresh reader with a single subscription.")
check("C06", ["c06.cpp", "flushctl.cpp"], technique="exhaustive enumeration of crash points (every write boundary, and torn appends) of all short recording histories on the real code",
      rule="one recording per storage form (12) x compression x save order x set of flush points; on each, the file image after every single write to the file (and, for appended blocks, after every byte of it) is opened and read; "
      "distinct = distinct write histories",
      note="Bounds: <= 5 (thorough 6) samples of one group, 4 (5) of two, 3 (4) of three, every subset of flush points; torn writes of recordings with <= 3 samples (thorough: all). Writes of <= 8 bytes are taken as atomic and writes reach the file in order. "
      "Signal data is stored at finalize: until then its values are missing, never foreign.")
check("C07", ["c07.cpp", "flushctl.cpp"], technique="bounded exhaustive enumeration of session histories on the real code (files on disk)",
      rule="one file per base recording (12 storage forms x compression x 0/2/4 samples; every single one of 25 format features, thorough: pairs) x sequence of <= 2 (thorough 3) append sessions out of 13 kinds (empty, metadata only, recordings of "
      "every writer and storage form), plus recordings into a stored unused configuration with every save order x flush points; distinct = distinct resulting files",
      note="After each session all earlier metadata, attachments and channel values are compared with those before it, the new measurement with the samples handed over, and the file is parsed by the independent MDF 4 checker.")
check("C24", ["c24.cpp"], technique="bounded exhaustive enumeration of field layouts and record bit patterns on the real code",
      rule="one case per data type x byte order x bit length (1-64) x bit offset (0-7); in each, every byte offset of a 16-byte record (also beyond it) with every single-bit record, its complement and fixed patterns; every 16-bit float value; "
      "files with two neighbouring fields of every enumerated length and gap; distinct = distinct value sequences",
      note="Field values are compared with an independent definition (128-bit arithmetic on the bytes of the field).")
check("C14", ["c14.cpp"], rule="one file per conversion (every type x parameter tuples from small value sets: linear, rational, polynomial, exponential, logarithmic, tables of <= 3 (thorough 4) keys, ranges with gaps and touching limits, texts), "
      "channel type and writer, recorded by the library or built independently (MDF 3 and 4); distinct = distinct engineering values",
      note="Each engineering value is compared with an independent definition of the conversion rules, on inputs at, below, above and between every key.")
check("C23", ["c23.cpp"], technique="bounded exhaustive enumeration of array shapes, element types and element values on the real code",
      rule="one recording per shape of <= 3 dimensions of <= 3 (thorough: 4) elements x element type x invalidation x layout (alone, between channels, several arrays, nested arrays), all sizes up to 40, array attributes; distinct = distinct contents",
      note="Every element of every sample is compared, raw record bytes included; elements outside the array must be refused and change nothing.")
check("C15", ["c15.cpp", "flushctl.cpp"], rule="one bus log per storage form (4) x mandatory-only x frame kind x every pair (thorough: triple) of 18 frame attributes varying over boundary values around the all-zero and all-ones frame; every payload length 0-64 followed by "
      "every boundary length; every sequence of <= 4 (6) frame kinds x compression x flush; distinct = distinct decoded contents",
      note="Each frame is read through its channels and decoded by CanBusObserver (callback and buffered); every attribute the group stores is compared with the frame saved.")
check("C16", ["c16.cpp", "flushctl.cpp"], rule="one bus log per event kind (25 kinds of LIN, Ethernet, MOST, FlexRay) x storage form x mandatory-only x low/high event x every pair (thorough: triple) of fields varying over all boundary values; "
      "every payload length (0-40 and around 256-multiples and the maximum) followed by every boundary length; every sequence of <= 3 (4) event kinds x storage x compression x flush; distinct = distinct contents read",
      note="Each event is read through the channels of its group; every field, payload, length and time is compared with the event saved and no group holds more events than were saved in it.")
check("C26", ["c26.cpp"], rule="every Unicode scalar value (alone, doubled, between neighbours of other lengths) through each conversion; every text of <= 4 (5) boundary code points; all Latin-1 byte triples over boundaries; every byte sequence of <= 4 (5) "
      "over 13 lead/continuation bytes and every wide sequence with lone surrogates and out-of-range values under the address sanitizer; code points through text channels of the 4 encodings, fixed and variable length; file names; distinct = distinct inputs blocks / outputs",
      note="Oracle: independent UTF-8/UTF-16 encoder. Malformed input has to end without a sanitizer report and keep its well-formed prefix.")
check("C25", ["c25.cpp"], rule="13 time zones (whole, half and quarter hours, both hemispheres, 30-minute daylight saving) x years 1970-2163 (quick: 25 of them) x all month, year, leap-day and daylight-saving edges +-1 s/1 h x 10 sub-second parts: every date/time text, CANopen "
      "date and time array and channel; ISO texts: separators x 0-9 fraction digits x 13 zone designators; header/history/start time kind x offset x daylight saving x instant x route, MDF 3 and MDF 4; distinct = distinct texts/values",
      note="Oracle: independent civil calendar and time zone rules. MDF 3 header times in zones with daylight saving depend on the current date and are compared only for explicit offsets.")
check("C22", ["c22.cpp", "flushctl.cpp"], rule="one source file per storage form (12 kinds x compression x every interleaving of the groups' records x task options); hand-built unsorted groups: every order of <= 3+3 (thorough more) records, VLSD records and records of other groups "
      "x place of the offset in the record; masters of every type; recordings with every pair (thorough: triple) of 25 format features; every descriptive attribute with boundary values in a bare and in a fully described file; distinct = distinct sorted contents",
      note="Source and sorted file are both read back: names, units, conversions, meta data, channel and engineering values, validity and times per group are compared, the source bytes are compared before/after, and the result is parsed by the independent MDF 4 checker.")
check("C18", ["c18.cpp"], rule="19 comment classes filled bare and fully, every attribute set to every boundary string/number/flag (single deviations in quick, pairs of deviations bare in quick and bare+full in thorough); every tree of <= 3 levels of property/enumeration/tree/list; every pair of 19 edits on a parsed comment; "
      "every generic node shape of <= 4 nodes with hostile tags, attributes and values; every document size around the 8192-byte parse buffer; every cut of a document; property values of every type; e-tag trees; distinct = distinct documents",
      note="Each comment is written, checked for well-formedness by an independent expat pass, read into a fresh object and compared attribute by attribute with what was set, then written and read once more. Edits after reading are compared with the same edits before writing.")
check("C20", ["c20.cpp"], rule="all parent and range references of <= 3 (4) events, each event created in one of 4 phases of the recording, with every scope and attachment set (1 (2) deviations); every attribute value and pair of values of an event; every forest of <= 4 (5) hierarchies with every element reference; events and hierarchies in every "
  "combination of phases; plain, compressed and reopened 0-2 times. Model: the map of names and references that was set; traces are the reads of the real file", note="Scopes, attachments and attributes set after a block has been written are not stored by design (the file is written front to back) and are not part of the space.")
check("C17", ["c17.cpp"], rule="every descriptive attribute of header, histories, attachments, groups, channels, conversions and sources with every boundary value, bare and in a fully described file; pairs of attributes (all pairs on one object in 3 (6) setting orders, a ninth of (all) pairs across objects); all list lengths 0-3 (0-4); MDF 3 and MDF 4; "
  "reopened for append. Every execution compares all attributes, not only the ones set", note="Strings: 19 boundary texts (markup, quotes, CDATA end, line breaks, UTF-8, 9000 characters). Attributes the format or the API cannot hold (listed in DESIGN.md) are outside.")
check("C21", ["c21.cpp", "flushctl.cpp"], rule="16 file layouts (12 record layouts, 4 files with every kind of block) x plain/compressed: cut after every byte x 3 reading modes; every non-zero link of every block set to zero x 3 modes; a zeroed link and a cut at 8 (64) points. Oracle: ASan, a 10 s limit, and the values of the complete file",
  note="Values are compared for cut files; for zeroed links only memory safety, termination and that no exception escapes are judged, since losing a link may legitimately change the meaning of a value (for example its conversion).")
check("C27", ["c27.cpp", "flushctl.cpp"], rule="every valid/invalid pattern of <= 3 (4) samples of every storage form of MDF 4 x every interleaving x compression x destination (none, new, existing, the source) x overwrite; one invalid value at every boundary place among 1-300; one invalid array element; MDF 3, bus logger and empty files, run once and twice; "
  "every pair (triple) of 25 format features; every kind of unusable source, with the task reused; distinct = distinct validity patterns and files",
  note="Expected validity is the pattern written, and independently each value read back one by one. After a run all files in the folder, the temporary folder, and the content of the source and destination (values, configuration, header, histories) are compared; a written file is parsed by the independent MDF 4 checker.")
check("C28", ["c28.cpp", "flushctl.cpp"], rule="27 channel types x array shape x conversion x every valid/invalid pattern of <= 2 (4) samples x way of creating the observer (channel, name, group, data group) x file variants, asked for as 11 value types; every storage form x interleaving of <= 4 (5) records x way of subscribing; "
  "every pair (triple) of 25 format features; distinct = distinct contents",
  note="Single values, sample lists, element lists, engineering values, texts and the valid list are compared with each other and, for the known recordings, with the value written and an independent evaluation of the conversion; samples and elements outside are asked for as well.")
check("C29", ["c29.cpp", "flushctl.cpp"], rule="every sequence of up to 6 (8) of the calls InitMeasurement, SaveSample, StartMeasurement, StopMeasurement, FinalizeMeasurement, and every regular sequence (several complete measurements, with and without an explicit stop) of up to 11 (14), x writer type x compression x variable-length data x background flush position x event; distinct = distinct files",
  note="Finalized measurements are compared value by value after the session, and (regular sequences) while later measurements run. After an irregular order only what is safe to demand is demanded: a well-formed file, holding only samples that were saved, in order.")
check("C30", ["c30.cpp", "flushctl.cpp"], rule="every sequence of 4 (6) reading steps (header, measurement info, everything but data, data, open, close, clear data) on 12 storage forms read from a stream, of 3 (5) steps on 4 (12) forms opened by file name in 3 ways; 3 sequences x every pair (triple) of 25 format features; distinct = distinct (file, sequence)",
  note="After every step the configuration, header and delivered values equal those of one plain read, and the file bytes are unchanged at the end. In MDF 3 a later configuration step reads the blocks anew, so observers made before it are dropped first.")
check("C31", ["c31.cpp", "flushctl.cpp"], rule="every pair (triple) of 28 channel types with and without master; every pair of types in 3 orders of giving type and size; group structures x save orders x flush points; record counts and up to 255 groups at the boundaries; channel positions around the 8 KB limits; texts at the field limits; every pair of conversions; up to 3 (4) measurements in one session and appended; distinct = distinct files",
  note="An independent MDF 3.3 parser checks ID, HD, DG, CG, CN, CC and TX blocks (type, length, counts, links, overlaps, record ids, channel positions) and decodes every record; the values, names, units, comments and conversion parameters it finds are compared with what was recorded.")
