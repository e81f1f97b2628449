#!/usr/bin/env python3
"""Writes properties.jsonl (one property per line). Kept so that the text is edited in one readable place."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

W="src/file/file_writer.rs"; R="src/file/channel_reader.rs"; M="src/file/mod.rs"
IDX=["src/index/mod.rs","src/index/building.rs","src/index/writing.rs","src/index/querying.rs"]
RAW=["src/raw_data/mod.rs","src/raw_data/records.rs","src/raw_data/contigious_multi_channel_read.rs","src/raw_data/interleaved_multi_channel_read.rs","src/raw_data/write.rs"]
IO=["src/io/reader.rs","src/io/writer.rs"]; MD="src/meta_data.rs"

p("C01","Acknowledged samples read back exactly and in order",
 "After any history of accepted sample writes (any fixed-size sample type, one or several channels per call, interleaved or contiguous, any number of samples, channel sets repeated, changed or reordered between calls), every channel reads back as exactly the concatenation, in call order, of the samples accepted for it, bit for bit, and its reported length is that number of samples. This holds on the handle that wrote them once the writer is released and on any handle opened later on the same stored bytes, over any number of writing sessions, also when several handles write in turns. It holds however the storage splits, shortens or interrupts the individual transfers.",
 ["histories","inputs","schedules"],"all sequences of accepted writes, sessions and reopenings; all legal ways storage can deliver each transfer (short reads, short writes, interruptions)",
 "Tests write one or two fixed blocks and read them back on the writing handle from a memory cursor that always transfers everything; the file a repeated, resized, retyped or regrouped write leaves behind is never reopened and no transfer is ever short or interrupted.",
 [W,M,R]+IDX+RAW+IO+[MD],[("incremental metadata: segment without metadata when the channel list is unchanged","Index::check_write_values / DataStreamWriter"),("index built the same way for written and read segments","Index::add_segment"),("chunk counting","DataBlock::number_of_chunks")],["TdmsFile::read_channel","TdmsFile::channel_length"],
 [("active objects","channels expected in the next data block","src/index/building.rs"),("next segment start","file offset at which the index expects the next segment","src/index/mod.rs")])
p("C02","Offset and multi-channel reads return exactly the requested window",
 "A read of any list of channels (also one that names a channel more than once), from any start sample, into buffers of any and possibly different lengths, puts sample start+i of each channel into position i of that channel's buffer and leaves every position past the channel's end untouched. The result does not depend on the order in which channels are requested, on how their samples were grouped into writes, blocks, chunks and layouts, on earlier reads, or on how the storage splits or interrupts the transfers.",
 ["histories","inputs","schedules"],"all write histories (block structures), all channel subsets, request orders, starts and buffer lengths, and all legal transfer schedules",
 "Tests read a handful of windows of one fixed file in which all channels requested together share one history, with equal buffer lengths and in file order.",
 [R]+RAW,[("file plan with per-channel skips","read_plan"),("per-channel progress over blocks","execute_read_plan"),("record plan and skip handling","RecordPlan, MultiChannelContiguousReader, MultiChannelInterleavedReader")],["TdmsFile::read_channel_from","TdmsFile::read_channels","TdmsFile::read_channels_from"])
p("C03","The last accepted property value wins, exactly",
 "After any history of property and sample writes, every object (file, group or channel) has exactly the property names ever accepted for it, each with the type and the bit-exact value of the last accepted write of that name, on the writing handle and on handles opened later, looked up by name, listed as a whole, or taken out by the typed conversions, of which the one to the value's own type gives the value and all others refuse. Writing properties never changes any channel's samples or length and writing samples never changes any property. This holds over any number of sessions and reopenings and however storage splits or interrupts transfers.",
 ["histories","inputs","schedules"],"all interleavings of property writes, sample writes, sessions and reopenings; all property types, names and value sizes; all legal transfer schedules",
 "Tests write single properties and read them back on the same handle, or read one LabVIEW file; they never interleave property-only segments with sample segments that reuse earlier metadata, overwrite with a different type, or exceed the I/O buffer.",
 [W,"src/properties.rs",MD,"src/index/mod.rs"]+IO,[("property-only segments merged into the index","Index::add_segment / ObjectData::update"),("size accounting of metadata","TdmsMetaData::size")],["TdmsFile::read_property","TdmsFile::read_all_properties"])
p("C04","The catalogue lists exactly the stored groups and channels",
 "After any history of writes and reopenings, listing the groups gives each group of the accepted writes exactly once (also those only implied by a channel), listing a group's channels gives exactly the channels of that group, and every path returned can be used to look up and read that very object. This holds for names made of any characters, including slashes, spaces, non-ASCII text and names that are prefixes of one another; only the single quote, which is stored as a double quote, is not preserved.",
 ["histories","inputs"],"all histories of sample and property writes and reopenings, all object names",
 "Tests list one or two groups with plain ASCII names on the handle that wrote them; no name contains a separator, prefixes another, or is listed after a reopening.",
 [M,"src/index/querying.rs","src/paths.rs"],[("prefix scan over ordered paths","Index::paths_starting_with"),("path parsing","parse_path, PropertyPath::path_levels")],["TdmsFile::list_groups","TdmsFile::list_channels_in_group","ChannelPath::group_name","ChannelPath::channel_name"])
p("C05","Stored files are well-formed TDMS for any other tool",
 "After any history of accepted writes, the stored bytes are an unbroken sequence of complete TDMS segments whose lead-in, metadata and raw data lengths agree, and decoding them by the published format rules alone (without this library) yields exactly the accepted samples and properties.",
 ["histories","inputs","schedules"],"all histories of accepted writes and sessions, all transfer schedules",
 "Tests look at the header of a single segment; whether consecutive segments with omitted or reused metadata mean to another reader what was written is never examined, and an error made alike by writer and reader is invisible to round-trip tests.",
 [W,MD]+IO+["src/raw_data/write.rs","src/index/writing.rs"],[("segment lengths computed before writing","TdmsWriter::write_segment"),("metadata reuse decision","DataStreamWriter::new")],["bytes in storage after release or sync"])
p("C06","Files written or extended by other TDMS writers read exactly",
 "A file produced by another conforming TDMS writer and possibly extended in turn by this library and by others (either byte order, interleaved or contiguous, repeated chunks, metadata fully given, partly updated, repeated from before or absent, new channel lists, channels of different types side by side) reads as exactly the samples and properties the format assigns to it. What the library does not support is refused, not misread: a file with DAQmx channels does not open, and reading the samples of a string channel is an error, while its length, its properties and every other channel of the file read exactly. Appending to such a file with this library keeps all of that and adds exactly what was written.",
 ["histories","inputs","schedules"],"all sequences of segments conforming to the documented support (channels of one segment have equal length, string channels only in contiguous segments of one chunk) alternating with this library's own sessions, under all transfer schedules",
 "One binary file made by LabVIEW is read; big-endian files, metadata-free segments, partial updates and mixed authorship never occur in the tests.",
 [M,MD]+IDX+RAW+IO,[("segment reading in either byte order","Segment::read"),("active object list over segments","Index::add_segment"),("chunk repetition","DataBlock::number_of_chunks")],["TdmsFile::new","read_channel*","read_property","TdmsFile::writer"])
p("C07","Stored data is append-only and reading never writes",
 "Once a segment is completely stored, no later operation on any handle (writing, failing, syncing, releasing, reopening, recovering; several handles may write in turns, one at a time) changes or removes any of its bytes; writing only extends the file, apart from completing or closing off the incomplete tail an interrupted write left behind. Opening a file for reading, listing, querying and reading samples, whether they succeed or fail, write nothing.",
 ["histories","fault_sequences","crash_points"],"all histories with storage failures, crashes and recoveries at any point",
 "No test looks at the bytes of earlier segments after a later operation, and none injects failures.",
 [M,W]+IO,[("writer positions itself after the last segment","TdmsFile::writer"),("buffered sequential writer","LittleEndianWriter")],["every write call reaching storage"])
p("C08","Synced data survives a crash at any later point",
 "Whatever was accepted before a sync that returned success (or before a clean release of the writer) is fully readable after a crash at any later moment, also one that cuts a write short anywhere inside lead-in, metadata or samples: the file opens without error and gives those samples and properties exactly. What was accepted after the last sync appears, if at all, as whole calls in their original order with nothing missing in between (at most, a channel first named by the call that was cut short may already be listed, without samples), and nothing that was never written appears.",
 ["crash_points","histories"],"all write histories and every byte position at which the sequence of writes since the last sync can be cut, including during a later session or recovery",
 "Tests never stop between two storage writes; a file whose last segment is incomplete is never opened.",
 [M,W,MD]+IO,[("sync flushes the buffered writer","TdmsWriter::sync"),("index building stops at the end of the file","build_index")],["TdmsFile::new after the crash","read_channel","read_property"])
p("C09","A file can be appended to after a crash",
 "After a crash at any point and reopening, writing continues: new writes are accepted, and afterwards, also after further crashes and reopenings, the file reads as what had survived each crash followed by what was accepted since, exactly and in order. Nor does it matter if storage fails while the writer is being opened: once it works again, opening it on the same handle succeeds.",
 ["crash_points","histories"],"all write histories, all cut positions, any number of crash / reopen / append rounds, crashes and storage failures during the first append after a crash included",
 "No test appends to a file with an incomplete last segment.",
 [M,W,"src/index/building.rs"],[("position of the first segment of a session","TdmsFile::writer"),("segment offsets","Index::add_segment")],["TdmsFile::writer, write_channels, then TdmsFile::new"],)
p("C10","A reader opening the file during a write sees a consistent prefix",
 "A reader that opens and reads a file while another handle is appending to it, with the writer's storage writes landing at any points between and within the reader's own storage accesses, opens without error and sees a prefix of the writer's calls: every call completed and synced before the opening, possibly later ones in order, each whole, with exact samples and properties. Later openings never see less than earlier ones.",
 ["schedules","histories"],"all interleavings of the writer's storage writes (split at any byte) with the storage accesses of one or more readers",
 "Tests have one handle at a time.",
 [M,MD]+IO,[("index building from the storage as found","build_index, Segment::read"),("blocks read only through the index","DataBlock::read")],["TdmsFile::new and reads on a second handle"])
p("C11","A failed read is reported and leaves nothing wrong behind",
 "If storage fails a read or a seek at any point, or a sample type the caller defines fails to decode a value, the operation in progress (opening, reading samples, opening a writer) returns an error instead of a shortened or wrong result, and every buffer position it touched holds either its previous content or the correct sample. As soon as storage works again the same operation on the same handle succeeds with the exact result.",
 ["fault_sequences","histories"],"all files, operations and positions at which one or several storage reads or seeks fail, with any error kind other than interruption; conversions of a caller's type failing before, in the middle of or after a value",
 "No test has a storage that fails, or a sample type of its own.",
 [M,R,MD]+RAW+IO,[("error propagation from every read and seek","build_index, Segment::read, read paths")],["Result of TdmsFile::new / read_channel* / writer, output buffers"])
p("C12","A failed write is reported and contained",
 "If storage fails writes or flushes at any point (error, full disk after a partial transfer, zero-length transfer), or a sample type the caller defines fails to encode a value, some call reports it before the writer claims success by a sync; everything synced or cleanly released before stays exactly readable on the same handle and after reopening; and no read ever returns samples or properties that were not accepted, the failed call's data showing up at most as a whole (at most, a channel first named by the failed call may already be listed, without samples). Once storage works again a new writing session on the same handle is accepted and behaves as if the failed call had not been made.",
 ["fault_sequences","histories"],"all write histories and all positions and durations of write and flush failures, including partially transferred writes and failures while the writer is released",
 "No test has a storage that fails.",
 [W,M]+IO+["src/index/building.rs"],[("index updated only after the segment is written","write_channels / write_properties"),("position of a new session","TdmsFile::writer"),("buffered writer","LittleEndianWriter")],["Results of writer calls, later reads on the same and on a fresh handle"])
p("C13","Rejected operations change nothing",
 "An operation refused because of its arguments (no channels, a number of values not divisible by the number of channels, no values, a channel listed twice in one write, a sample type that cannot be stored as channel data, a name or string longer than the 32 bit length the format has for it, an unknown object, a sample type that does not match the stored type) returns an error and stores nothing: the stored bytes of the file and all later results are the same as if it had not been called.",
 ["histories","inputs"],"all histories with refused operations at any positions",
 "Tests check that single refused calls return an error, not what the file and the handle look like afterwards.",
 [W,R,"src/raw_data/write.rs","src/raw_data/records.rs"],[("validation before writing","MultiChannelSlice::from_slice, DataStreamWriter::new"),("type validation before reading","validate_types_match")],["Results, stored bytes, later reads and reopenings"])
p("C14","Corrupt storage never crashes, hangs or exhausts the process",
 "Whatever bytes the storage holds (flipped, overwritten, zeroed, truncated, duplicated or inserted ranges of a file, or arbitrary bytes), also when it is damaged while the file is open, opening the file, listing and querying everything it claims to contain, reading any window of any channel and opening a writer on it each end with a result or an error, without panicking, without looping and within a number of storage accesses bounded by the file size and the number of samples asked for.",
 ["fault_sequences","inputs"],"all corruptions of all files, and all queries on whatever can still be opened",
 "The fuzz target only opens files; unit tests cover a few single malformed fields.",
 [M,MD]+IDX+RAW+["src/io/reader.rs","src/io/data_types/strings.rs","src/paths.rs"],[("checked arithmetic on offsets and sizes","Segment::total_size_bytes, DataBlock"),("validation of raw data offset and length","DataBlock::from_segment")],["Results of every public call"])
p("C15","Declared sizes that cannot be allocated are errors",
 "When a file declares a string, object list, property list or block too large for the memory that can be obtained, opening or reading it returns an error and the process continues; memory whose size depends on what a file merely declares, and not on what it holds, is only requested in a way that can fail.",
 ["fault_sequences","inputs"],"all files with enlarged declared sizes and all memory limits under which allocations above a size fail",
 "One unit test reads one string with an obscene length with a working allocator; no test makes an allocation fail.",
 ["src/io/reader.rs","src/io/data_types/strings.rs",MD],[("fallible reservation before filling","TdmsReader::read_vec, read_string_with_length, ObjectMetaData::read")],["Results under a failing allocator"])
p("C16","Files opened by path keep every guarantee and creation replaces",
 "Opening by path gives the same results as any other storage with the same bytes, also when the operating system shortens, interrupts or fails individual file calls; opening a missing file fails and creates nothing, and opening never changes an existing file. Creating by path yields an empty file whatever was there before, and what is then written and released is found by opening the path again.",
 ["histories","fault_sequences","schedules"],"all histories of create, open, write, read and reopen on paths, with short, interrupted and failing system calls at any point",
 "The path-based tests only open one existing file; creation, replacement, missing files and failing system calls are not exercised.",
 [M],[("open options","TdmsFile::load, TdmsFile::create")],["system calls issued by std::fs::File", "TdmsFile::load / create results"])
p("C19","Unreadable samples affect only the reads that need them",
 "If parts of the stored samples permanently cannot be read (the storage fails every read that begins in such a part and shortens every read that runs into one), opening the file, its catalogue, lengths and properties, opening a writer and appending, and every read of samples that lie elsewhere still give exact results. A read fails only if it asks for a sample that lies in such a part or, of interleaved samples, for rows (from the first to the last one asked for) that the part touches. What an opening or a read transfers, and the memory it takes, is thus bounded by what it asks for, not by the size of the file, of its blocks or of the samples skipped.",
 ["fault_sequences","inputs","histories"],"all files, also of other applications and also of many terabytes (sparse), all placements of unreadable parts in their samples, all read windows and appends",
 "Test storage is a memory cursor in which every byte is readable at no cost, so a read that walks through megabytes it does not need, or an opening that touches samples, gives the same results as one that does not.",
 [R,M]+RAW+IO,[("whole blocks are skipped","read_plan"),("samples before the window are skipped by seeking","MultiChannelContiguousReader::read_sub_block, MultiChannelInterleavedReader::read"),("opening reads lead-ins and metadata only","build_index"),("the writer seeks to the end","TdmsFile::writer")],["TdmsFile::new","TdmsFile::read_channel*","TdmsFile::read_channels*","TdmsFile::writer and what is appended"])
p("C20","A file that another application is still writing shows what was stored",
 "While another application adds segments to a file (storing each of them at once; with an open-ended length that it completes once the segment is finished; or extending a finished segment in place after storing its new length), opening the file through this library and reading from it succeed and show exactly what was stored at one moment of the opening, the whole chunks of a segment in progress included: never metadata, bytes of later segments or anything not yet stored as samples. What was opened stays readable and the same while more is added, a later opening never shows less than an earlier one, and once the other application is done everything it stored is exact.",
 ["schedules","histories"],"all sequences of segments of another application after all own histories, and all interleavings of its storage writes with the storage accesses of opening and reading",
 "Tests read files that nobody writes meanwhile.",
 [M,R]+IDX+["src/raw_data/mod.rs","src/meta_data/mod.rs"],[("the lead-in is read again when the segment was completed meanwhile","build_index"),("the end of the file is determined once","build_index"),("whole chunks of an incomplete segment","DataBlock::from_segment")],["TdmsFile::new / load","TdmsFile::read_channel*","listings, lengths and properties of a handle opened meanwhile"])
p("C17","Property value conversions never change a value",
 "Converting a value into a property and back gives the same value, and converting a property to any other type is refused with a type mismatch.",
 ["inputs"],"all values of all property types",
 "Only a few example values are converted.",
 ["src/properties.rs"],[("conversion macros","impl_conversion_for_property_value")],["From / TryFrom on PropertyValue"])
p("C18","Timestamps convert to and from calendar time without drift",
 "With calendar-time support enabled, a timestamp property converted to calendar time and back denotes the same instant to within the resolution of the coarser type.",
 ["inputs"],"all representable instants",
 "One instant (now, rounded to seconds) is converted.",
 ["src/properties.rs"],[("chrono conversions","chrono_support")],["From / TryFrom between PropertyValue and DateTime"])
with open("properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
