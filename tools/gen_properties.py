#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the single source of the property texts).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

p("C01", "Bit-level reads and writes are exact, MSB-first and confined",
  "Reading n bits at any bit offset yields exactly those bits, most significant first, and writing n bits changes exactly those bits and nothing else, so a write followed by a read at the same place returns the value's low n bits. Accesses that run past the end of the data stop there without failing, and a cursor-style bit reader or writer always advances by exactly the amount requested, including whole-byte copies at byte-aligned positions.",
  ["inputs"], "every buffer content, bit offset, length up to 64 and value",
  "The one test prints a single 8-bit read at offset 4 and checks no value.",
  ["bufio/bits_reader.go", "bufio/bits_writer.go"],
  [("bit extraction and insertion loops", "bufio/bits_reader.go ReadBits; bufio/bits_writer.go WriteBits"), ("cursor arithmetic", "BitsReader / BitsWriter methods")],
  ["returned values", "buffer bytes", "Offset"])

p("C02", "Byte cursors never leave their slice and fail without side effects",
  "A byte reader or writer cursor always stays within its slice, every fixed-width access is big-endian at the cursor and advances it by exactly its width, and relative seeks move by exactly the requested distance in either direction. An access or seek that would leave the slice returns an error and changes neither the cursor nor the data, whatever size is requested, negative or overflowing sizes included. Remaining, readable and written views always agree with the cursor.",
  ["inputs", "histories"], "every slice, every sequence of operations and every requested size over the whole int range",
  "No test touches the byte cursors; sizes near overflow or negative are never tried.",
  ["bufio/bytes_buffer.go", "bufio/bytes_reader.go", "bufio/bytes_wirter.go", "bufio/util.go"],
  [("bounds check before every access", "bufio/bytes_buffer.go peekN")],
  ["returned values and errors", "Offset, RemainingBytes, ReadableBytes, WrittenBytes"],
  [("offset", "cursor position", "bufio/bytes_buffer.go")])

p("C03", "Exp-Golomb and fixed-width bit decoding inverts the standard coding",
  "From any bit position, fixed-width reads return the next n bits as an unsigned number, unsigned Exp-Golomb reads return the number whose H.264/H.265 9.1 code word starts there, and signed reads return the mapped signed value in two's complement; each consumes exactly its code word. If the data ends inside a code word an error is returned, and by every later read too.",
  ["inputs"], "every bit string, every code word with up to 32 leading zeros, every alignment",
  "No test decodes a code word and checks its value; only two whole SPS are parsed and nothing is compared.",
  ["bufio/golomb_reader.go"],
  [("bit reader and Exp-Golomb decoder", "bufio/golomb_reader.go GolombBitReader")],
  ["returned value and error", "what the next read returns"])

p("C04", "Start-code search finds exactly the first start code",
  "Searching a byte stream for a start code reports the first position where a 00 00 01 prefix is followed by at least one byte, and reports a four-byte prefix exactly when another zero byte precedes it; if there is none it reports not found. The variants that return the start of the prefix, or advance a reader past the unit header and return that header byte, agree with it and leave the reader alone when nothing is found.",
  ["inputs"], "every byte string",
  "No test calls the search with a checked result; its skip-ahead steps depend on the exact placement of 0 and 1 bytes.",
  ["avc/util.go"],
  [("skip-ahead scanner", "avc/util.go FindStartCode"), ("variants", "FindStartCode2, FindStartCodeWithReader")],
  ["returned index and prefix length", "reader offset"])

p("C05", "NAL unit splitting partitions the stream",
  "Splitting an Annex-B stream hands out consecutive pieces whose concatenation is exactly the input, cut exactly at the start codes, so that each unit of a well-formed stream is delivered once, in order, and complete. Stripping a start code removes a leading three- or four-byte prefix and nothing else, and leaves data without one as it is.",
  ["inputs"], "every byte string; every sequence of units with three- or four-byte start codes",
  "The only test that splits reads a file that is not in the repository and fails.",
  ["avc/util.go"],
  [("splitter", "avc/util.go SplitNalU"), ("prefix removal", "avc/util.go RemoveStartCode")],
  ["the sequence of slices passed to the callback", "the returned slice"])

p("C06", "Annex-B to length-prefixed conversion preserves the units",
  "Converting a well-formed Annex-B access unit to the four-byte length-prefixed form yields exactly the same NAL units, in order, with identical bytes and each preceded by its exact big-endian length, for H.264 and H.265 unit headers alike. Empty units are dropped, a stream without start code yields nothing, and on arbitrary input the result is still a well-formed sequence of length-prefixed units that fits its announced size.",
  ["inputs"], "every sequence of NAL units, unit content, unit length and choice of start code; every byte string for the well-formedness part",
  "No test converts anything.",
  ["avc/util.go", "packet_utils.go"],
  [("converter", "avc/util.go AnnexB2AVCC"), ("output sizing", "packet_utils.go AnnexBPacket2AVCC")],
  ["output bytes and returned size"])

p("C07", "Length-prefixed to Annex-B conversion preserves H.264 units",
  "Converting a length-prefixed H.264 access unit to Annex-B yields exactly the same NAL units, in order and byte-identical, the first after a four-byte start code and the others after three-byte ones; supplied parameter sets are inserted once, before the first IDR slice, only when the packet carries none of its own before it, and the slice-level converter leaves SEI units out. Truncated or zero-length units end the conversion without reading outside the packet, the returned size is exactly what was written, and converting Annex-B to length-prefixed and back gives the same units.",
  ["inputs"], "every sequence of NAL units, unit type, content and length; every byte string; every truncation point",
  "No test converts anything.",
  ["avc/util.go"],
  [("converters", "avc/util.go AVCC2AnnexB, Mp4ToAnnexB, copyNalUWithBytes, copyNalU")],
  ["output bytes and returned size"])

p("C08", "Length-prefixed to Annex-B conversion preserves H.265 units",
  "For every length-field size from 1 to 4, converting a length-prefixed H.265 access unit to Annex-B yields exactly the same NAL units in order, each after a four-byte start code, with supplied parameter sets inserted once, before the first random-access unit. A packet whose length fields do not tile it exactly, or that announces a unit shorter than its header, is rejected with an error instead of being converted.",
  ["inputs"], "every length-field size, unit sequence, unit type and content; every byte string",
  "No test converts anything.",
  ["hevc/util.go"],
  [("converter", "hevc/util.go Mp4ToAnnexB")],
  ["output bytes, returned size and error"])

p("C09", "H.264 decoder configuration records round-trip their parameter sets",
  "Serialising SPS and PPS lists to an H.264 decoder configuration record and parsing it back yields the same parameter sets in the same order, with version 1, profile, compatibility and level taken from the SPS and four-byte lengths announced. Parsing any record exposes exactly the units and header fields it encodes, the Annex-B renderings of a record list every SPS then every PPS with four-byte start codes, and a record that is truncated or lacks SPS or PPS is rejected with an error.",
  ["inputs"], "every list of parameter sets (with or without start code) that fits, every header byte, every truncation point, every byte string",
  "The test parses one fixed single-SPS single-PPS record and compares nothing.",
  ["avc/mp4.go", "avc/util.go"],
  [("record writer and parser", "avc/mp4.go Marshal, Unmarshal"), ("Annex-B rendering", "avc/mp4.go ExtraDataToAnnexB; avc/util.go M4VCExtraDataToAnnexB")],
  ["record bytes, parsed lists and fields, errors"])

p("C10", "H.265 decoder configuration records round-trip their parameter sets",
  "Serialising VPS, SPS and PPS lists to an H.265 decoder configuration record and parsing it back yields the same parameter sets in the same lists and order. Parsing any record exposes every header field at its specified bit position and every VPS, SPS and PPS of every array whatever the array order, ignores other unit types, and renders to Annex-B as all VPS, then SPS, then PPS with four-byte start codes; a record that is truncated or lacks one of the three kinds is rejected with an error.",
  ["inputs"], "every list of parameter sets that fits, every header byte, every array order and count, every truncation point, every byte string",
  "The test parses one fixed VPS/SPS/PPS record and compares nothing.",
  ["hevc/mp4.go"],
  [("record writer and parser", "hevc/mp4.go Marshal, Unmarshal"), ("Annex-B rendering", "hevc/mp4.go ExtraDataToAnnexB")],
  ["record bytes, parsed lists and fields, errors"])

p("C11", "H.264 SPS parsing yields the coded picture geometry",
  "Parsing an H.264 sequence parameter set, with or without start code, reports the profile, level, id, macroblock dimensions and cropping it encodes, and the cropped picture width and height that the standard derives from them, for progressive and interlaced coding and every chroma format. The syntax elements that precede or follow these (scaling lists, picture order count cycle, VUI) and emulation prevention bytes never disturb the result, and a parameter set that ends early is rejected with an error.",
  ["inputs"], "every value of every syntax element up to and including the cropping, every profile, every truncation point",
  "One fixed SPS is parsed; its dimensions are printed, not compared.",
  ["avc/sps.go", "bufio/golomb_reader.go"],
  [("SPS parser", "avc/sps.go ParseSPS")],
  ["returned SPS fields and error"])

p("C12", "H.265 SPS parsing yields the coded picture geometry",
  "Parsing an H.265 sequence parameter set, with or without start code, reports the picture width and height in luma samples and the displayed width and height after the conformance window is applied in the units of its chroma format. The number of temporal sub-layers and their optional profile and level data, every syntax element read before the dimensions, and emulation prevention bytes never disturb the result, and a parameter set that ends early is rejected with an error.",
  ["inputs"], "every value of every syntax element up to the conformance window, every sub-layer configuration, every truncation point",
  "One fixed SPS is parsed; its dimensions are printed, not compared.",
  ["hevc/sps.go", "bufio/golomb_reader.go"],
  [("SPS parser", "hevc/sps.go ParseSPS, parsePTL, nal2rbsp")],
  ["returned SPS fields and error"])

p("C13", "Key-frame detection follows the first coded slice",
  "An Annex-B access unit is reported as a key frame exactly when, skipping leading parameter sets, SEI and access unit delimiters, its first other unit is an IDR slice for H.264 or a random-access picture (unit types 16 to 23) for H.265. Anything else - no start code, a non-key slice first, or only skipped units - is reported as not key, and codecs other than these two are never key.",
  ["inputs"], "every sequence of unit types and contents, every byte string",
  "The only test that calls it reads a file that is not in the repository and fails.",
  ["avc/util.go", "hevc/util.go", "packet_utils.go"],
  [("detectors", "avc/util.go IsKeyFrame; hevc/util.go IsKeyFrame; packet_utils.go IsKeyFrame")],
  ["returned boolean"])

p("C14", "Parameter sets are extracted intact from a key frame",
  "Extracting parameter sets from an Annex-B access unit returns the last SPS and PPS (and VPS for H.265) it contains, byte-identical and normalised to a four-byte start code, wherever they sit among other units and whichever start code precedes them. If any required kind is missing an error is returned and no partial result, and the combined extra data is the VPS, SPS and PPS in that order.",
  ["inputs"], "every sequence of units, content and start-code choice",
  "No test extracts parameter sets.",
  ["avc/util.go", "hevc/util.go", "video_stream.go"],
  [("extractors", "avc/util.go ParseExtraDataFromKeyNALU; hevc/util.go ParseExtraDataFromKeyNALU"), ("combination", "video_stream.go ExtractVideoExtraDataFromKeyFrame")],
  ["returned slices and error"])

p("C15", "AAC framing headers and configurations agree with each other",
  "Writing an ADTS header and reading it back yields the same MPEG id, profile, sampling index, channel configuration and frame length, and every header field is exposed from its specified bit position. The audio configuration derived from an ADTS header decodes to the same object type, sampling rate and channel count; sampling rate and sampling index lookups are inverse of each other on the standard rates, and data that is not a sync word or is too short is rejected with an error.",
  ["inputs"], "every header field value, every frame length below 8192, every 7-byte header, every 2-byte configuration",
  "No test touches the AAC helpers.",
  ["utils/aac_util.go", "video_stream.go"],
  [("ADTS writer and reader", "utils/aac_util.go SetADtsHeader, ReadADtsFixedHeader, ADtsHeader accessors"), ("AudioSpecificConfig", "ADtsHeader2MpegAudioConfigData, ParseMpeg4AudioConfig"), ("lookup", "GetSampleRateFromFrequency, GetSampleRateIndex")],
  ["returned fields, header bytes, errors"])

p("C16", "Parsing untrusted bytes never crashes and always terminates",
  "Every entry point that takes bytes from the network or a file - start-code search, unit splitting, format conversion, key-frame detection, parameter set extraction, configuration record and SPS parsing, AAC header and configuration parsing, packet conversion and feeding such payloads to a demuxer - returns normally or with an error on every byte string. It never panics, never loops forever, and never modifies its input.",
  ["inputs"], "every byte string, including empty, truncated and malformed ones",
  "Tests feed only two well-formed records.",
  ["avc/util.go", "avc/mp4.go", "avc/sps.go", "hevc/util.go", "hevc/mp4.go", "hevc/sps.go", "utils/aac_util.go", "video_stream.go", "codec_paraments.go", "demuxer.go"],
  [("length checks before every access", "all parsers")],
  ["panics, termination, input bytes after the call"])

p("C17", "Ring buffer and queue behave as the sequences they stand for",
  "A queue behaves as an unbounded double-ended sequence: elements pushed at the back come out of the front in order, or off the back in reverse, none lost, duplicated or reordered, across any number of wrap-arounds and growths. A ring buffer behaves as the same sequence limited to its capacity, dropping the oldest element when pushed while full. Size, emptiness, fullness, capacity, front, back, indexed access and the two-part view always describe that sequence.",
  ["histories", "inputs"], "every sequence of operations, capacity and element value",
  "One test pushes 100 and pops them without comparing; the ring buffer test panics before it starts.",
  ["collections/ring_buffer.go", "collections/queue.go"],
  [("circular indices", "collections/ring_buffer.go"), ("growth and back removal", "collections/queue.go")],
  ["returned elements and views"],
  [("head/tail/size", "occupied window of the circular array", "collections/ring_buffer.go")])

p("C18", "Linked list behaves as an indexable sequence",
  "A linked list behaves as a sequence: additions go to the end, removing at an index returns exactly the element there and closes the gap, and lookups return the element at their index. This holds for every interleaving of additions and removals, including removing the first, the last and the only element and adding again afterwards, and the size always matches.",
  ["histories"], "every sequence of additions, removals and lookups at every valid index",
  "The test removes only from the front.",
  ["collections/linked_list.go"],
  [("node relinking", "collections/linked_list.go Remove, Add")],
  ["returned elements, size"])

p("C19", "Linear block buffer keeps every written byte and never overlaps blocks",
  "A linear block buffer keeps everything written since it was last empty, in order; a completed block contains exactly the bytes written to it, and a block handed out is never overwritten while it has not been popped, across growth, popping at either end and clearing. Splitting seals the buffer and yields an empty buffer over the unused memory that works like a fresh one and never touches the original's bytes. Reported pending, available and total sizes match.",
  ["histories", "inputs"], "every sequence of writes, allocations, completions, pops, clears and splits, every size and initial capacity",
  "The test writes and pops single bytes and compares nothing; splitting is never called.",
  ["collections/buffer_direct.go", "collections/queue.go"],
  [("bump allocation with growth", "collections/buffer_direct.go")],
  ["slices returned by Alloc, Fetch, Data; sizes"],
  [("nextOffset", "end of allocated bytes", "collections/buffer_direct.go"), ("blocks", "live block list", "collections/buffer_direct.go")])

p("C20", "Circular block buffer never overwrites a block still in use",
  "A circular block buffer delivers each completed block with exactly the bytes written to it, and those bytes stay intact until that block is popped, whatever is written after - across wrap-around, growth and cancellation of the newest block. Blocks that growth moved out of the live buffer still count as popped one by one in order, so popping never releases a younger block early.",
  ["histories", "inputs"], "every sequence of writes, completions, pops at either end and clears, every write size and initial capacity",
  "The 'rb' test exercises the linear buffer instead; the circular one is not tested at all.",
  ["collections/buffer_rb.go", "collections/buffer_direct.go", "streams_buffer.go"],
  [("wrap, grow and discard accounting", "collections/buffer_rb.go Alloc, Pop"), ("per-stream buffers", "streams_buffer.go")],
  ["bytes of every fetched, not yet popped block"],
  [("head/tail indices", "occupied region", "collections/buffer_rb.go"), ("discardBlockCount", "blocks left in abandoned memory", "collections/buffer_rb.go")])

p("C21", "Reference counting releases exactly once under every schedule",
  "When several goroutines take and drop references concurrently, the count seen afterwards is the number taken minus the number dropped, and among balanced drops exactly one - the last - reports that the object may be released. No interleaving of these operations loses an update or reports release twice or too early.",
  ["schedules"], "every interleaving of concurrent takes and drops",
  "The test is single-threaded.",
  ["collections/reference_counter.go"],
  [("atomic add and its returned value", "collections/reference_counter.go")],
  ["return values of the drops, final count"])

p("C22", "Demuxer announces tracks before packets and loses or reorders none",
  "For every order in which tracks and packets arrive, a demuxer's handler sees all track announcements, then one completion notice (or one track-not-found notice if there are none), then packets; tracks arriving after completion are refused, also when a handler offers them or requests completion again from within a callback. Every accepted packet is delivered at most once and exactly once when a later packet of its track follows, in arrival order within its track when its timestamps do not decrease, probed packets merged by ascending timestamp, and with duration equal to the next packet's timestamp minus its own. Completion happens when the buffered packets of one track last for the probe duration (at least 200 ms, each packet's duration in whole milliseconds), when explicitly requested, or on a tentative request once every raw PCM and G.726 track has two packets.",
  ["histories", "inputs"], "every sequence of track and packet arrivals over several tracks, every timestamp, every probe duration",
  "The demuxer has no test at all.",
  ["demuxer.go", "collections/linked_list.go", "tracks.go"],
  [("probe buffering and forwarding", "demuxer.go processBufferedPacket, OnProbeComplete"), ("track creation", "demuxer.go createAudioTrack, createVideoTrack, AddTrack")],
  ["the sequence of handler callbacks and packet fields"],
  [("Completed", "probe finished", "demuxer.go"), ("Packets", "per-track packets held back", "demuxer.go")])

p("C23", "Demuxer returns every buffer block exactly once",
  "Each payload block handed to a demuxer is given back to the data pipeline exactly once: cancelled right away when it is rejected or is codec configuration, or released after its packet was delivered, in order within its stream, by the demuxer when packets are freed automatically and otherwise by the application. A delivered packet's bytes are exactly those that were written for it, no matter what was written in between, and a packet is never recycled before its handler callback.",
  ["histories", "inputs"], "every sequence of writes, track arrivals, accepted and rejected packets over several streams",
  "The demuxer and the stream buffers have no test at all.",
  ["demuxer.go", "streams_buffer.go", "data_pipeline.go", "collections/buffer_rb.go"],
  [("discard on reject", "demuxer.go OnAudioPacket, OnVideoPacket, OnNewAudioTrack, OnNewVideoTrack"), ("discard after delivery", "demuxer.go forwardPacket")],
  ["calls on the data pipeline, delivered packet bytes"],
  [("streamIndex2BufferIndex", "which buffer a track's packets live in", "demuxer.go")])

p("C24", "Packet format conversion keeps units and prepends parameter sets to keys",
  "Converting a video packet between Annex-B and length-prefixed form yields the same units, returns packets already in the wanted form or of other codecs unchanged, and gives the same answer when asked again. A key frame rendered as Annex-B starts with the stream's parameter sets, added once and only when the packet's first unit does not already have the header byte of the first of them; a non-key frame has none added. (Length-prefixed H.264 packets use four-byte lengths and lose SEI units on the way to Annex-B; a malformed H.265 packet gives no data.) A caller-provided allocator is used for the new buffer and gives the same result as the default one.",
  ["inputs", "histories"], "every packet content, key flag, packing, codec, allocator and number of calls",
  "No test converts a packet.",
  ["packet_utils.go", "av_packet.go"],
  [("conversion with caching", "packet_utils.go AVCCPacket2AnnexB, AnnexBPacket2AVCC")],
  ["returned bytes"],
  [("cached conversion", "result of an earlier call", "av_packet.go")])

p("C25", "Recycled packets carry nothing over",
  "A packet obtained for audio or video carries exactly the data, timestamps, codec, index, timebase, key flag and packing it was created with, and every other field at its neutral value, whether it is new or recycled. Nothing of a freed packet, including cached conversions and allocator hooks, can be observed through a packet obtained later.",
  ["histories", "inputs"], "every sequence of creating, using and freeing packets, every field value, every choice the pool may make",
  "No test creates a packet.",
  ["av_packet.go"],
  [("field reset before pooling", "av_packet.go FreePacket"), ("constructors", "av_packet.go NewAudioPacket, NewVideoPacket")],
  ["every field of the new packet, conversions of it"])

p("C26", "Timestamp conversion is exact, monotonic and stable",
  "Converting a timestamp between timebases gives the exact rational value rounded toward zero, for every timestamp of a realistic range and every pair of standard timebases, so order is preserved, exact multiples convert exactly, and converting to a finer timebase that is a multiple and back is lossless. Converting a packet's timestamps, duration or presentation offset to its own timebase returns them unchanged.",
  ["inputs"], "every timestamp and every pair of standard timebases",
  "No test converts a timestamp.",
  ["packet_utils.go", "av_packet.go"],
  [("rescaling", "packet_utils.go ConvertTs"), ("packet accessors", "av_packet.go ConvertDts, ConvertPts, GetDuration, GetPtsDtsDelta")],
  ["returned timestamps"])

p("C27", "Codec data gives consistent views of the same parameter sets",
  "Codec data built from parameter sets or from a decoder configuration record reports the same parameter sets and the dimensions encoded in the SPS, and its Annex-B and configuration-record renderings describe exactly those parameter sets, so rebuilding codec data from either rendering gives an equal description. Asking repeatedly gives the same answer, the caller's bytes are never changed, and a record that is truncated or an SPS that ends before its dimensions are complete is rejected with an error.",
  ["inputs"], "every set of parameter sets within bounds, both codecs, both construction routes",
  "No test builds codec data.",
  ["codec_paraments.go", "video_stream.go", "avc/mp4.go", "hevc/mp4.go"],
  [("construction", "codec_paraments.go NewAVCCodecData, NewHEVCCodecData, Parse*DecoderConfigurationRecord"), ("renderings", "AnnexBExtraData, MP4ExtraData")],
  ["returned bytes, lists and dimensions"])

p("C28", "Track bookkeeping and audio parameter estimation",
  "Tracks get consecutive indices in the order they are added and are found by the first match on codec or media type; a muxer accepts at most one track per media type and reports the index under which it can be retrieved. Audio and video tracks created by a demuxer carry the codec, timebase, private copy of the configuration, and sampling rate and channels encoded in it; explicitly announced tracks are limited to one per media type except for transport streams, while packets create one track per stream buffer. For raw PCM and G.726 every such track reports the sampling rate or bit rate bracket implied by the size and duration of the first packet of the first such track. Stream markers map to consecutive buffer indices, in order of first appearance.",
  ["histories", "inputs"], "every sequence of track additions, every codec configuration, every packet size and duration",
  "No test adds a track.",
  ["tracks.go", "muxer.go", "demuxer.go", "video_stream.go"],
  [("track lists", "tracks.go, muxer.go AddTrack"), ("track creation and estimation", "demuxer.go createAudioTrack, createVideoTrack, prepareTracks")],
  ["returned tracks, indices and stream fields"])

p("C29", "Random helpers stay within their range and alphabet",
  "A random integer drawn from an inclusive range always lies in that range and every value of the range can occur; an inverted range is refused. A random string has exactly the requested length and only ASCII letters and digits.",
  ["inputs"], "every range and length, every outcome of the random source",
  "No test calls them; sampling cannot show a bound for every outcome.",
  ["utils/random_util.go"],
  [("range arithmetic", "utils/random_util.go RandomIntInRange"), ("alphabet indexing", "utils/random_util.go RandStringBytes")],
  ["returned values"])

p("C30", "Direct pipeline hands over exactly the pending bytes",
  "A direct pipeline's fetch returns exactly the bytes written since the previous fetch, in order, minus what was rewound, and its pending size always equals that amount; growth never loses or reorders bytes.",
  ["histories", "inputs"], "every sequence of writes, backward seeks and fetches, every write size",
  "No test uses it.",
  ["direct_pipeline.go"],
  [("growth and cursor", "direct_pipeline.go Write, Fetch, Seek")],
  ["returned bytes and sizes"])

p("C31", "Unpacked streams reach their files intact",
  "When unpacked packets are written to files, each track gets one file, named after the given path, its media type, index and codec, which afterwards holds exactly that track's delivered packets in order - video in Annex-B form with a key frame preceded once by the stream's parameter sets unless it begins with its own, anything else as it is - and nothing of an earlier file of that name.",
  ["histories", "inputs"], "every sequence of tracks and packets",
  "No test writes a file.",
  ["handler.go"],
  [("file writer", "handler.go OnUnpackStream2FileHandler")],
  ["file contents"])

p("C32", "Stream buffers keep every stream's blocks apart and intact",
  "For every interleaving of writes, fetches and releases on any number of streams, fetching a stream returns exactly the bytes written to that stream since its previous fetch, in order, and those bytes stay intact until that block is released, whatever is written to or released from this or any other stream. Reported pending sizes are those of the stream asked about, and a stream can be used for the first time at any index, in any order and with either media type, without disturbing the others.",
  ["histories", "inputs"], "every sequence of operations over every choice of stream indices; block sizes up to and beyond a buffer's capacity",
  "No test uses the stream buffers.",
  ["streams_buffer.go", "collections/buffer_rb.go"],
  [("one circular buffer per stream, created on demand", "streams_buffer.go findOrCreateStreamBuffer")],
  ["returned and outstanding block bytes", "pending sizes"],
  [("buffers", "buffer of each stream index", "streams_buffer.go")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
