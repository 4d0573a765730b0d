#!/usr/bin/env python3
"""Source of properties.jsonl (one dict per property). Run to regenerate."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

S = "mdflib/src/"
prop("C01", "MDF 4 sample values read back exactly as written",
 "Every value stored in a fixed-length channel of an MDF 4 file (unsigned/signed integers of 1, 2, 4 or 8 bytes, 32/64-bit floats, ASCII or UTF-8 text, byte arrays and CANopen dates/times, in both byte orders) is read back bit-exactly, at the same sample index and in the channel it was written to. This holds for every combination of data type, size and byte order of neighbouring channels, every number of channel groups per data group and of data groups per file, and with or without data compression.",
 ["inputs", "configurations"], "all channel type/size/endianness combinations, record layouts, group counts and boundary values",
 "Tests write a handful of layouts; a record layout or sign/endianness defect only shows for specific neighbours, sizes or record-id widths.",
 [S+"cn4block.cpp", S+"cg4block.cpp", S+"ichannel.cpp", S+"writer4samplequeue.cpp", S+"dg4block.cpp", S+"readcache.cpp"],
 [("channel value packing/unpacking", S+"ichannel.cpp, "+S+"cn4block.cpp"), ("record layout", S+"cg4block.cpp PrepareForWriting"), ("record parsing", S+"dg4block.cpp, "+S+"readcache.cpp")])
prop("C02", "MDF 3 sample values read back exactly as written",
 "Every value stored in a channel of an MDF 3 file (integers, floats, text, byte arrays, CANopen date/time) is read back exactly, at the same sample index and in the channel it was written to, and the channel and group counts, names (also longer than 31 characters), units and descriptions read back as set. This holds for every record layout, every number of channel groups and data groups, and however many flushes the samples were stored in.",
 ["inputs", "configurations"], "all MDF 3 channel types, sizes, record layouts and group counts within the bounds",
 "Tests write one MDF 3 layout; offsets, record ids and per-group counters only matter for other layouts.",
 [S+"cn3block.cpp", S+"cg3block.cpp", S+"dg3block.cpp", S+"hd3block.cpp", S+"samplequeue.cpp", S+"mdf3writer.cpp"],
 [("record layout", S+"cg3block.cpp PrepareForWriting"), ("byte offset split", S+"cn3block.cpp ByteOffset"), ("sample flush", S+"samplequeue.cpp CleanQueue")])
prop("C03", "No sample is lost, duplicated or reordered by background saving",
 "While a measurement is running, every sample handed to the writer after start is in the finished file exactly once, in the order it was handed over per channel group and with its own values, whatever the interleaving of the saving threads with the writer's background thread. Starting, stopping and finalizing always return (no deadlock), and the stored sample counters equal the number of stored records.",
 ["schedules"], "all interleavings (bounded preemptions and timer expirations) of producer threads, start/stop calls and the background writer thread",
 "Unit tests see one OS schedule; the periodic flush fires only every 10 s, so tests never interleave it with saving.",
 [S+"writecache.cpp", S+"samplequeue.cpp", S+"writer4samplequeue.cpp", S+"convertersamplequeue.cpp", S+"mdfwriter.cpp"],
 [("worker thread", S+"writecache.cpp WorkThread"), ("queue drain with unlock/relock", S+"writer4samplequeue.cpp, "+S+"samplequeue.cpp")])
prop("C04", "Pre-trigger window, start time and master time of stored samples",
 "With a pre-trigger time, the file holds the samples from the pre-trigger window before start, preceded by the last sample before that window, plus every sample saved between start and stop, and no older sample. Each stored time-master value equals (sample timestamp - start time) in seconds, for samples saved before and after start alike, and the file's start time is the start time given.",
 ["inputs", "histories"], "all sequences of saves/start/stop with small timestamp alphabets and pre-trigger times, flushed or not",
 "Tests use one regular sequence; boundary equality of timestamps, empty windows and samples queued before start decide correctness.",
 [S+"samplequeue.cpp", S+"mdfwriter.cpp", S+"writecache.cpp"],
 [("queue trimming", S+"samplequeue.cpp TrimQueue"), ("master time recalculation", S+"samplequeue.cpp RecalculateTimeMaster/RecalculateTime")])
prop("C05", "Every finalized MDF 4 file is structurally well-formed",
 "In every finalized MDF 4 file each link is zero or points to an existing, 8-byte aligned block of an allowed type, each block lies inside the file, does not overlap another block and has the length and link count its type requires, and the file is marked as finalized. Sample counters equal the number of records in the data section, data-list offsets and compressed-block sizes equal the real ones, and record ids are unique within a data group.",
 ["configurations", "histories"], "all writer configurations and operation histories in the bounded alphabet",
 "Reading back with the same library hides errors made symmetrically by reader and writer; an independent parser over all configurations does not.",
 [S+"mdfblock.cpp", S+"mdf4file.cpp", S+"hd4block.cpp", S+"dg4block.cpp", S+"cg4block.cpp", S+"cn4block.cpp", S+"dl4block.cpp", S+"dz4block.cpp", S+"hl4block.cpp", S+"sd4block.cpp"],
 [("block header and link update", S+"mdfblock.cpp"), ("data block finalization", S+"writer4samplequeue.cpp, "+S+"mdf4writer.cpp")])
prop("C06", "A crash while recording loses nothing already flushed",
 "If the recording process dies at any point after the measurement was initialized, the bytes that have reached the file can be opened and read, and every group delivers an exact prefix of the samples that were saved, never wrong or foreign values. The prefix contains at least all samples of the flushes that had completed before the crash; only variable-length values that are stored when the file is finalized may still be missing.",
 ["crash_points", "histories"], "every write-boundary (and torn-write) prefix of the write history of a bounded recording",
 "Tests never cut a recording at an intermediate write.",
 [S+"writer4samplequeue.cpp", S+"samplequeue.cpp", S+"dt4block.cpp", S+"cg4block.cpp", S+"mdf4file.cpp"],
 [("flush order: records, then data length, then counters", S+"writer4samplequeue.cpp SaveQueue"), ("counter update", S+"cg4block.cpp, "+S+"cg3block.cpp Write")])
prop("C07", "Appending to an existing file preserves what is already there",
 "Opening an existing MDF file with a writer and recording another measurement leaves every earlier measurement's configuration and sample values, file history and metadata readable and unchanged, and adds the new measurement with all its samples. Opening and finalizing without recording changes no data.",
 ["histories"], "all short sequences of append sessions (record, metadata only, empty) over writer types and compression settings",
 "The state space of histories (what the earlier session wrote) x (what this one writes) is not sampled by tests.",
 [S+"mdfwriter.cpp", S+"mdf4writer.cpp", S+"writecache.cpp", S+"hd4block.cpp", S+"dg4block.cpp"],
 [("re-open and list update", S+"mdfwriter.cpp Init/InitMeasurement, "+S+"mdfblock.h WriteLink4List")])
prop("C08", "Per-sample validity flags round trip for every channel",
 "A value stored as invalid is read back as invalid and a value stored as valid is read back as valid, independently for each channel and sample, for every subset of channels that use invalidation bits and every number of such channels. Storing a validity flag never alters any channel's value.",
 ["inputs", "configurations"], "all validity patterns over bounded numbers of channels and samples",
 "Bit positions interact between channels; tests check single channels.",
 [S+"cn4block.cpp", S+"cg4block.cpp", S+"ichannel.cpp"],
 [("invalidation bit assignment", S+"cg4block.cpp PrepareForWriting"), ("bit set/get", S+"cn4block.cpp SetValid/GetValid")])
prop("C09", "Variable-length values round trip in every storage form",
 "Text and byte-array values of any length (including empty) saved in variable-length channels are read back exactly, whether stored in a signal-data block, in an own variable-length record group or as maximum-length data, with or without compression. Values fetched later through the offset list equal the values of a direct read.",
 ["inputs", "configurations", "histories"], "all sequences of lengths from a small alphabet per channel, storage form and compression setting",
 "Offsets depend on the complete history of lengths; tests use one.",
 [S+"cn4block.cpp", S+"cg4block.cpp", S+"writer4samplequeue.cpp", S+"mdf4writer.cpp", S+"sd4block.cpp", S+"dg4block.cpp", S+"mdfreader.cpp"],
 [("offset calculation", S+"writer4samplequeue.cpp, "+S+"cn4block.cpp"), ("offset-list read", S+"mdfreader.cpp ReadVlsdData")])
prop("C10", "Reading does not depend on how the data section is split in blocks",
 "A reader delivers the same values for every legal on-disk arrangement of the same records: one data block, a list of blocks cut at any byte position (also inside a record), compressed or transposed-compressed blocks of any size, with or without list headers, equal-length or offset lists and chained lists, for sorted and unsorted data and for signal data.",
 ["inputs", "configurations"], "all cut positions and encodings of a small data section produced by an independent file builder",
 "The library's own writer produces only a few arrangements; other tools' files use the rest.",
 [S+"readcache.cpp", S+"datalistblock.cpp", S+"datablock.cpp", S+"dl4block.cpp", S+"dz4block.cpp", S+"hl4block.cpp", S+"ld4block.cpp", S+"dg4block.cpp", S+"zlibutil.cpp"],
 [("block boundary handling", S+"readcache.cpp"), ("inverse transposition", S+"zlibutil.cpp, "+S+"dz4block.cpp")])
prop("C11", "Compression is lossless and transparent",
 "Compressing and then decompressing any byte sequence gives back the same bytes, for compressible and incompressible data of any size around internal chunk limits and through every compress/decompress entry point, and transposition followed by inverse transposition is the identity for every record size. A recording made with compression reads back identically to the same recording made without.",
 ["inputs", "configurations"], "all byte sequences over small alphabets/lengths, sizes around every internal limit, all record sizes",
 "Only sizes at internal buffer limits and incompressible contents reveal truncation; tests use small compressible data.",
 [S+"zlibutil.cpp", S+"dz4block.cpp", S+"writer4samplequeue.cpp", S+"hl4block.cpp", S+"dl4block.cpp"],
 [("deflate/inflate", S+"zlibutil.cpp"), ("chunked compressed flush", S+"writer4samplequeue.cpp")])
prop("C12", "Partial reads equal the corresponding slice of a full read",
 "For every sample range (first and last sample number, counted from one), a partial read gives exactly the values and validity that a full read gives for the samples in that range, for every subscribed channel, whatever the group layout, record order, storage form and compression of the file.",
 ["inputs", "configurations"], "all sample ranges x file layouts in the bounds",
 "Skipping depends on range, record interleaving and block cuts together.",
 [S+"mdfreader.cpp", S+"dg4block.cpp", S+"cg4block.cpp", S+"dgrange.cpp", S+"cgrange.cpp", S+"readcache.cpp", S+"dg3block.cpp"],
 [("range tracking", S+"dgrange.cpp, "+S+"cgrange.cpp"), ("skipping", S+"readcache.cpp SkipBytes")])
prop("C13", "Subscriptions are independent and repeatable",
 "The values a channel subscription receives do not depend on which other channels or groups are subscribed, on the order in which subscriptions are made, or on earlier reads; a subscription that was removed receives nothing and disturbs no other. A read callback sees each record of its group once, in file order, and returning 'stop' ends the read early without corrupting values already delivered.",
 ["inputs", "histories"], "all subsets/orders of subscriptions and short sequences of read/clear/unsubscribe",
 "Subsets and histories grow exponentially and share per-group state.",
 [S+"idatagroup.cpp", S+"isampleobserver.cpp", S+"channelobserver.h", S+"ichannelobserver.cpp", S+"dg4block.cpp", S+"mdfreader.cpp"],
 [("observer dispatch", S+"idatagroup.cpp NotifySampleObservers/InitFastObserverList")])
prop("C14", "Engineering values follow the channel's conversion rule",
 "The engineering value of a sample is the documented function of its channel value for every conversion type (none, linear, rational, table with and without interpolation, range tables, value/range to text, text to value, text to text, and the MDF 3 polynomial type), including values below, between, on and above table keys and default entries. Conversions written to a file and read back convert identically, and an invalid sample never yields a valid engineering value.",
 ["inputs", "configurations"], "all conversion types x small tables x channel values around every key x integer/float channels",
 "Boundary keys, defaults and persistence of parameters are a product space; tests sample a few points.",
 [S+"ichannelconversion.cpp", S+"cc4block.cpp", S+"cc3block.cpp", "include/mdf/ichannelconversion.h", "include/mdf/ichannelobserver.h"],
 [("conversion functions", S+"ichannelconversion.cpp"), ("parameter persistence", S+"cc4block.cpp, "+S+"cc3block.cpp Read/Write")])
prop("C15", "CAN messages round trip through the bus log",
 "Every field of a CAN data, remote, error or overload frame (identifier, extended flag, DLC, data bytes, bus channel, direction and the frame flags) saved in a bus log is read back with the same value through the corresponding channels and raw-record decoding, for classic and FD lengths 0-64 and every storage form. Fields never disturb each other.",
 ["inputs", "configurations"], "all field values at boundaries x frame types x storage forms",
 "Bit-packed fields interact; tests set one or two frames.",
 [S+"canmessage.cpp", S+"canconfigadapter.cpp", S+"samplequeue.cpp", S+"mdfbuslogger.cpp"],
 [("raw packing", S+"canmessage.cpp ToRaw"), ("channel layout", S+"canconfigadapter.cpp")])
prop("C16", "LIN, Ethernet, MOST and FlexRay messages round trip through the bus log",
 "Every field of a LIN, Ethernet, MOST or FlexRay event saved in a bus log is read back with the same value through the channels of the event's group, with payloads of every length including zero. Events of one kind never appear in, or alter, another kind's group.",
 ["inputs", "configurations"], "all event kinds x fields at boundary values x payload lengths",
 "About 30 message kinds with hand-computed offsets; tests cover a fraction.",
 [S+"linmessage.cpp", S+"ethmessage.cpp", S+"mostmessage.cpp", S+"flexraymessage.cpp", S+"linconfigadapter.cpp", S+"ethconfigadapter.cpp", S+"mostconfigadapter.cpp", S+"flexrayconfigadapter.cpp"],
 [("raw packing", S+"linmessage.cpp etc. ToRaw"), ("channel layout", S+"*configadapter.cpp")])
prop("C17", "Descriptive metadata round trips",
 "All descriptive attributes a user sets on header, file history, data groups, channel groups, channels, source information and conversions (names, comments, units, author/project fields, times, flags, limits, counts and order of list items) are read back from the file with the same values. Setting one attribute never changes another.",
 ["inputs", "configurations"], "all single attributes and pairs with boundary strings (empty, long, markup characters, UTF-8), and list lengths 0-3",
 "Attribute interactions and string edge cases form a product space.",
 [S+"hd4block.cpp", S+"fh4block.cpp", S+"cg4block.cpp", S+"cn4block.cpp", S+"si4block.cpp", S+"md4block.cpp", S+"tx4block.cpp", S+"mdfblock.cpp"],
 [("text/metadata blocks", S+"tx4block.cpp, "+S+"md4block.cpp"), ("list writing", S+"mdfblock.h WriteLink4List")])
prop("C18", "XML comments and properties survive serialization",
 "Any tree of comment properties (texts, numbers, lists, trees, units, formulas, alternative names, time sources) built through the comment interfaces serializes to XML that parses back to an equal tree, for every string content including markup characters and non-ASCII text, and generic XML nodes round trip likewise. (Outside: white space around a text, characters XML cannot represent, infinities and NaN, and merging of items with equal names.)",
 ["inputs"], "all small trees over the node kinds with an alphabet of hostile strings",
 "Escaping and nesting interact; tests use benign strings.",
 [S+"ixmlnode.cpp", S+"ixmlfile.cpp", S+"expatxml.cpp", S+"writexml.cpp", S+"mdcomment.cpp", S+"mdproperty.cpp", S+"hdcomment.cpp", S+"cncomment.cpp"],
 [("XML escaping", S+"ixmlnode.cpp"), ("comment ToXml/FromXml", S+"mdcomment.cpp and siblings")])
prop("C19", "Embedded attachments export byte-identically",
 "A file attached to a measurement, embedded with or without compression, exports byte-identically to the original for every content and size, and its stored size, checksum, name, type and description are those of the original. No attachment is silently dropped, whatever its content.",
 ["inputs", "configurations"], "all sizes around internal chunk limits x content classes x embed/compress flags x attachment counts",
 "Sizes around chunk limits and incompressible content are never sampled.",
 [S+"at4block.cpp", S+"zlibutil.cpp", S+"cryptoutil.cpp", S+"mdfreader.cpp"],
 [("embedding", S+"at4block.cpp Write"), ("export", S+"at4block.cpp ReadData"), ("MD5", S+"cryptoutil.cpp")])
prop("C20", "Events and channel hierarchies keep their content and references",
 "Events read back with the name, type, cause, range, sync values, creator and description they were given, with their parent, range and attachment references naming the same objects as when written. Channel hierarchies read back with the same names, types, nesting and element references.",
 ["inputs", "configurations"], "all small event graphs and hierarchy trees in the bounds",
 "Reference graphs form a product space; a wrong link index is invisible without checking every element.",
 [S+"ev4block.cpp", S+"ch4block.cpp", S+"hd4block.cpp"],
 [("reference resolution", S+"ev4block.cpp, "+S+"ch4block.cpp FindReferencedBlocks")])
prop("C21", "Truncated input never crashes or hangs the reader",
 "Opening and reading a file that has been cut at any byte position terminates without memory errors and escaping exceptions, and delivers no valid value, channel name or attachment content that was not written at that place. A file in which any one link has been replaced by zero is also read without memory errors, endless loops or escaping exceptions.",
 ["inputs", "fault_sequences"], "every truncation length and every single zeroed link of representative files",
 "Exhaustive truncation is thousands of files per layout.",
 [S+"mdfreader.cpp", S+"mdfblock.cpp", S+"readcache.cpp", S+"dg4block.cpp", S+"dz4block.cpp", S+"mdf3file.cpp"],
 [("bounds checks", S+"mdfblock.cpp ReadHeader4, "+S+"readcache.cpp")])
prop("C22", "Sorting a file preserves its content",
 "The sorting task produces, from any finalized MDF 4 file, a file in which every channel group has its own data group and holds exactly the samples, validity, times and variable-length values it had in the source, and the same channel names, units, conversions and meta data; the header, file history and attachments are kept and the source file is unchanged. No group or sample is lost for any interleaving of records in the source.",
 ["inputs", "histories"], "all record interleavings and group layouts in the bounds",
 "Interleavings of groups grow combinatorially.",
 [S+"sortingtask.cpp", S+"mdftask.cpp", S+"copysampleobserver.cpp", S+"sortingconfigadapter.cpp", S+"mdfconverter.cpp", S+"convertersamplequeue.cpp"],
 [("record copy", S+"copysampleobserver.cpp"), ("configuration copy", S+"cn4block.cpp CopyFrom")])
prop("C27", "The validating task reports exactly whether a file holds invalid values",
 "For every MDF file the validating task reports a valid result exactly when every value of every channel is valid, names each channel that holds an invalid value once, and reports an error (never a valid result) for a source that cannot be read. A valid MDF 4 file is copied to the destination, or over the source, with exactly one more file history ('Valid') and otherwise the same content, and only if the destination does not exist or may be overwritten; in all other cases no file is changed, and no temporary file is left.",
 ["inputs", "histories"], "all validity patterns, storage forms, destinations and failing sources in the bounds",
 "A single invalid value among many, in any storage form, decides the result.",
 [S+"validatingtask.cpp", S+"mdftask.cpp", "include/mdf/mdftask.h"],
 [("validation", S+"mdftask.cpp ValidateAllValues, AddValidationResult"), ("file handling", S+"mdftask.cpp CopyTempFile, DeleteTempFile")])
prop("C28", "Every way of asking for a value gives the same answer",
 "For every channel of a file that was read, the single value, the list of samples, the list of array elements, the engineering value and its text, and the list of valid flags agree with each other and with the stored value, whichever value type is asked for and however the observer was created (by channel, by name, for a channel group, for a data group); without a conversion the engineering value is the channel value; samples and elements outside the recording are never valid.",
 ["inputs", "configurations"], "all channel types, array shapes, conversions, validity patterns and access paths in the bounds",
 "Types, shapes, conversions and access functions multiply.",
 ["include/mdf/ichannelobserver.h", S+"ichannelobserver.cpp", S+"channelobserver.h", S+"channelobserver.cpp", S+"mdfreader.cpp"],
 [("accessors", "include/mdf/ichannelobserver.h GetChannelValue, GetEngValue, GetChannelSamples"), ("observer creation", S+"mdfreader.cpp CreateChannelObserver")])
prop("C29", "One writing session can hold any sequence of measurements",
 "With one writer, measurements can be made one after the other into the same file: each InitMeasurement, StartMeasurement, StopMeasurement and FinalizeMeasurement cycle adds its own data groups, a finalized measurement stays complete and readable while later ones are configured, run and finalized, and finalizing a measurement that still runs stops it and stores all its samples. Calls in an unusual order never damage the file: it stays well-formed and holds only samples that were saved.",
 ["histories", "configurations"], "all call sequences up to the bound, with background flushes",
 "The damage depends on the order of calls and on when the worker thread writes.",
 [S+"mdfwriter.cpp", S+"mdf4writer.cpp", S+"mdf3writer.cpp", S+"samplequeue.cpp", S+"writer4samplequeue.cpp", S+"convertersamplequeue.cpp"],
 [("state changes", S+"mdfwriter.cpp InitMeasurement, StartMeasurement, StopMeasurement, FinalizeMeasurement"), ("worker thread", S+"mdfwriter.cpp, "+S+"samplequeue.cpp")])
prop("C30", "What is read does not depend on the order of the reading steps",
 "Whatever order a reader's steps are made in (header, measurement information, everything but data, data, opening, closing, clearing data), repeated or not, and however the file was given (stream or file name), the configuration and the values finally delivered equal those of one plain read, each step keeps what earlier steps read, and reading never changes the file.",
 ["histories", "configurations"], "all step sequences up to the bound on every storage form",
 "Caching and re-reading errors show only for particular orders.",
 [S+"mdfreader.cpp", S+"mdf4file.cpp", S+"mdf3file.cpp", S+"hd4block.cpp", S+"dg4block.cpp", S+"cg4block.cpp"],
 [("reading steps", S+"mdfreader.cpp"), ("block caching", S+"mdf4file.cpp, "+S+"mdf3file.cpp")])
prop("C31", "Every finalized MDF 3 file is well-formed and decodable by other tools",
 "A finalized MDF 3 file follows the format: the ID and HD blocks are valid, all links point to blocks of the right type inside the file, block lengths and the data group, channel group, channel and record counts match what is there, nothing overlaps, every channel lies inside its record and its signal type fits its size; an independent decoder finds exactly the recorded samples, names, units, texts and conversion parameters, also after several measurements and after appending.",
 ["inputs", "configurations", "histories"], "all channel type pairs, structures, orders, texts and conversions in the bounds",
 "The library's own reader tolerates wrong lengths, counts and types that other tools reject.",
 [S+"mdf3writer.cpp", S+"hd3block.cpp", S+"dg3block.cpp", S+"cg3block.cpp", S+"cn3block.cpp", S+"cc3block.cpp", S+"tx3block.cpp", S+"idblock.cpp", S+"samplequeue.cpp"],
 [("block writing", S+"cn3block.cpp, "+S+"cg3block.cpp, "+S+"cc3block.cpp Write"), ("counts and data", S+"mdf3writer.cpp, "+S+"samplequeue.cpp")])
prop("C23", "Channel arrays keep every element",
 "Each element of an array channel is written to and read from its own place: for every array shape, data type and byte order the element values and validity read back equal those written, elements outside the array are rejected, and neighbouring channels are not affected.",
 ["inputs", "configurations"], "all small shapes x types x index sets including one past the end",
 "Index arithmetic errors show only at specific shapes/types.",
 [S+"ca4block.cpp", S+"cn4block.cpp", S+"ichannel.cpp", S+"cg4block.cpp"],
 [("array offset", S+"ichannel.cpp, "+S+"cn4block.cpp"), ("shape persistence", S+"ca4block.cpp")])
prop("C24", "Bit fields read at any position of a record",
 "Reading an unsigned, signed or float channel of any bit length at any byte and bit offset, in either byte order, gives the value defined by the format's bit numbering from the raw record bytes. Neighbouring bits have no influence, a field that reaches outside its record is reported invalid, and the layout set by a user is stored and read back unchanged by both writers.",
 ["inputs"], "all start bits x lengths (1-64) x byte orders x bit patterns of weight 0-2 and complements",
 "4096 start/length pairs per byte order and type.",
 [S+"ichannel.cpp", S+"mdfhelper.cpp", S+"cn4block.cpp", S+"cn3block.cpp"],
 [("bit extraction", S+"mdfhelper.cpp, "+S+"ichannel.cpp"), ("layout persistence", S+"cn4block.cpp, "+S+"cn3block.cpp")])
prop("C25", "Time stamps convert without loss",
 "Header and file-history times set in UTC, local or time-zone form are stored with their kind and offsets and read back unchanged; CANopen date and time arrays convert to nanoseconds and back without change at their resolution; date/time strings agree with the calendar, in every local time zone.",
 ["inputs", "configurations"], "boundary instants (day/month/leap-year/DST edges) x time zones x kinds",
 "Tests run in one time zone at a few instants.",
 [S+"mdf4timestamp.cpp", S+"mdf3timestamp.cpp", S+"timestamp.cpp", S+"mdfhelper.cpp", S+"hd4block.cpp"],
 [("conversions", S+"mdfhelper.cpp"), ("storage", S+"mdf4timestamp.cpp")])
prop("C26", "Text encodings convert losslessly",
 "Every valid Unicode text converts between UTF-8, UTF-16 and UTF-32/wide forms and back without change, and Latin-1 text converts to the UTF-8 of the same characters; malformed input terminates without memory errors.",
 ["inputs"], "all code points and all short sequences over an alphabet of lead/continuation bytes",
 "1.1 million code points and malformed sequences.",
 [S+"cutf.cpp", S+"mdfhelper.cpp"],
 [("conversion", S+"cutf.cpp")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
