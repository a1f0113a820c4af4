#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if "state" in kw: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in kw["state"]]
    if "observe" in kw: a["observe_at"]=kw["observe"]
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

FLV="format/flv/flv.go"; FIO="format/flv/flvio/flvio.go"; A0="format/flv/flvio/amf0.go"; A3="format/flv/flvio/amf3.go"
MSG="format/rtmp/msg.go"; CMD="format/rtmp/cmd.go"; HS="format/rtmp/handshake.go"
H="codec/h264/h264.go"; AAC="codec/aac/aac.go"; BITS="utils/bits/bits.go"; GOL="utils/bits/golomb_reader.go"
MUX="format/mp4/muxer.go"; DEM="format/mp4/demuxer.go"; STR="format/mp4/stream.go"; MIO="format/mp4/mp4io/mp4io.go"; ATO="format/mp4/mp4io/atoms.go"
RC="format/rtsp/client.go"; SDP="format/rtsp/sdp/parser.go"; FMT="format/format.go"; PS="cmd/avtool/pubsub.go"

p("C01","FLV: every packet written is read back unchanged and in order",
 "For every sequence of H.264, AAC, decoder-configuration and metadata packets, writing them with the FLV muxer and reading the produced bytes with the FLV demuxer yields the same packets in the same order: same type, payload, keyframe flag, timestamp and composition offset (in whole milliseconds, timestamps over the full 32-bit range, offsets over the signed 24-bit range), and metadata equal as AMF values. The file header is written exactly once and before the first tag, with the requested audio/video flags. A packet too large for the 24-bit size of a tag is refused with an error and leaves no trace in the file. This holds whatever the sizes in which the underlying reader hands out the bytes.",
 ["inputs","histories"],"all packet sequences (payload sizes from 0 to above 64 KiB, all 32-bit ms timestamps, negative and positive composition offsets, metadata values) and all read fragmentations",
 "The suite has no FLV container test at all; only AMF values are tested. Boundary timestamps (24-bit rollover), negative offsets, empty payloads and fragmentation need generated histories.",
 [FLV,FIO],[("packet<->tag mapping","format/flv/flv.go:WritePacket,ReadPacket"),("tag header and extended timestamp","format/flv/flvio/flvio.go:FillTagHeader,ParseTagHeader"),("24-bit signed composition time","format/flv/flvio/flvio.go:fillVideoHeader,parseVideoHeader")])
p("C02","FLV: files conform to the FLV layout, as writer and as reader",
 "Every byte stream the FLV muxer writes is a well-formed FLV file as an independent parser reads it (signature, flags, data offset, tag sizes, extended timestamps, stream id 0, previous-tag-size fields, audio/video tag headers, onMetaData script tags, prefixed by @setDataFrame when publishing). Every well-formed FLV file built by an independent writer, including longer header offsets, unknown tag types, other codecs, non-metadata script tags and AMF3 script tags, is demuxed to exactly its H.264, AAC and metadata packets in file order, everything else being skipped. Input without the FLV signature, or whose header announces a data offset inside the header, gives an error and no packet.",
 ["inputs","histories"],"all tag sequences an independent FLV writer can emit and all packet sequences the muxer accepts",
 "No test parses or produces an FLV tag. A round trip alone cannot see a mistake made symmetrically in writer and reader, so an independent reference over generated files is needed.",
 [FLV,FIO],[("tag serialisation","format/flv/flvio/flvio.go:WriteTag,ReadTag"),("file header","format/flv/flvio/flvio.go:FillFileHeader,ParseFileHeader"),("metadata conversion","format/flv/flv.go:convertToAMF0Metadata")])
p("C03","FLV: truncation, corruption and I/O faults give whole packets or an error",
 "Reading an FLV file cut at any byte yields exactly the packets whose tags are completely contained in the prefix and then an end-of-file error, the regular io.EOF only when no tag is left incomplete, never a partial packet; arbitrary bytes yield packets or an error without panic, hang, or memory growth out of proportion to the input. If the underlying writer fails at any point the muxer call that hit the fault returns that error, and the bytes written before it form a prefix of the fault-free output; reader errors are likewise returned unchanged.",
 ["crash_points","fault_sequences","inputs"],"all truncation points, all bit/byte corruptions, all positions of a failing read or write call",
 "No test injects faults or truncates a file; the guarantee quantifies over every cut position and every malformed input.",
 [FLV,FIO],[("full reads and error propagation","format/flv/flvio/flvio.go:ReadTag,WriteTag"),("bounds-checked cursor reads","utils/bits/pio/reader.go:ReadU8..ReadString")])
p("C04","AMF0 values survive encode/decode and match their announced size",
 "For every AMF0 value tree of numbers, booleans, strings of any length, null, dates, objects, ECMA arrays and strict arrays, the announced encoded length equals the number of bytes produced, the bytes are exactly the AMF0 encoding of the value, and decoding them yields an equal value and consumes exactly those bytes. A value of a kind the encoder does not support, or a key longer than AMF0 allows, never makes the surrounding container undecodable. Ordered maps keep insertion order, replace in place on a repeated key, delete by key, and look up the value last set; their JSON form lists the keys in that order.",
 ["inputs","histories"],"all AMF0 value trees, any mixture of values in one message, and all set/delete/get sequences on ordered maps",
 "Tests cover a handful of literal values; string length boundaries (65535/65536), nesting, dates, mixed sequences and map operation histories are not reached.",
 [A0],[("size precomputation vs fill","format/flv/flvio/amf0.go:LenAMF0Val,FillAMF0Val"),("parser","format/flv/flvio/amf0.go:ParseAMF0Val"),("ordered map","format/flv/flvio/amf0.go:AMFMap")])
p("C05","AMF3 messages decode to the encoded values",
 "Decoding the AMF3 encoding of any value tree (undefined, null, booleans, unsigned 29-bit integers, doubles, strings, dates, XML text, byte arrays, arrays with dense and associative parts, sealed and dynamic objects) yields that value and consumes exactly the encoded bytes, also when several values follow one another in a message. A message whose format byte announces AMF0 is decoded as AMF0. Encodings by reference, which are not supported, are refused with an error rather than decoded to another value.",
 ["inputs"],"all AMF3 value trees encoded by value, all sequences of them, and encodings by reference",
 "Tests decode a few fixed captures; value-length boundaries, nesting and combinations of traits can only be covered by generation.",
 [A3,A0],[("AMF3 value reader","format/flv/flvio/amf3.go:parseAMF3Val,readObject,readArray"),("format byte","format/flv/flvio/amf0.go:ParseAMFVals")])
p("C06","AMF decoding of arbitrary bytes is safe and bounded",
 "For any byte string, decoding it as AMF0 or AMF3, as one value or as a whole message, returns values or an error without panic, stack exhaustion or hang, with memory use in proportion to the input size, and never reports consuming more bytes than were given. A truncated encoding of a value is reported as an error rather than as a complete value.",
 ["inputs","crash_points"],"all byte strings up to the message size limit, in particular mutated, truncated and deeply nested encodings with forged lengths and counts",
 "Tests only decode valid captures. Peers on the network control these bytes, so the guarantee is over every input.",
 [A0,A3],[("bounds checks on lengths and counts","format/flv/flvio/amf0.go:ParseAMF0Val; format/flv/flvio/amf3.go"),("error type with offset","format/flv/flvio/amf0.go:amf0ParseErr")])
p("C07","RTMP: published or played media arrives complete, in order and unchanged",
 "Whatever sequence of H.264, AAC, decoder-configuration and metadata packets one side of an established RTMP session writes, the other side reads the same packets in the same order with equal payloads, keyframe flags, millisecond timestamps over the 32-bit range and composition offsets, for publishing clients as well as for playing clients, whatever the sizes in which the network delivers the bytes. Each packet reaches the peer without needing a later packet to push it out, and after the sender has written everything and closed, the receiver gets all of it before an end-of-stream error.",
 ["inputs","histories","schedules"],"all packet sequences, both directions, all fragmentations of the byte stream between the peers",
 "There is no RTMP test. Chunking depends on payload size versus chunk size, timestamps past the 24-bit limit and delivery fragmentation.",
 [MSG,CMD,"format/rtmp/server.go","format/rtmp/client.go"],[("message writer/reader","format/rtmp/msg.go:writeMsg2,readChunk"),("tag<->packet","format/flv/flv.go:WritePacket,ReadPacket"),("buffered connection","format/rtmp/server.go:bufReadWriter")])
p("C08","RTMP: any legal chunking of a message stream is reassembled exactly",
 "A message stream sent by an independent RTMP peer is reassembled to exactly the same media tags in the same order, whatever legal chunking the peer uses: chunk stream ids in one-, two- and three-byte form, header types 0 to 3, timestamp deltas, extended timestamps, interleaving of messages on different chunk streams, changes of chunk size between messages, and aggregate messages whose parts are delivered with timestamps relative to the aggregate. Control messages in between (acknowledgements, window sizes, user control events) do not disturb the media, a set-chunk-size message takes effect for the following chunks, and a message that the peer aborts half-way is dropped without any effect on the others.",
 ["inputs","schedules","histories"],"all message sequences, all legal header choices and all interleavings of chunks on up to the supported number of chunk streams",
 "No test feeds RTMP chunks; header compression choices and interleavings are combinatorial.",
 [MSG],[("chunk reader state per chunk stream","format/rtmp/msg.go:readChunk"),("aggregate splitting","format/rtmp/msg.go:nextAggPart")],
 state=[("readcsmap","partially received message and last header per chunk stream","format/rtmp/conn.go")])
p("C09","RTMP: everything written decodes under a strict independent chunk decoder",
 "Every byte stream a client or server session writes after the handshake is a legal RTMP chunk stream: an independent decoder that enforces the announced chunk size, header forms, extended-timestamp rules and message lengths recovers exactly the messages sent, with media tags on a media message type carrying the FLV tag body and its timestamp. This holds for every payload size around multiples of the chunk size, every timestamp, at the default chunk size and at the one a session announces; what exceeds the 24-bit message length is refused with an error and leaves no trace in the stream.",
 ["inputs","histories"],"all payload sizes, timestamps and chunk sizes, over whole sessions",
 "No test looks at the bytes; the library's own reader can share the writer's mistakes, so an independent decoder over generated messages is required.",
 [MSG],[("chunk header writer","format/rtmp/msg.go:fillChunkHeader0,fillChunkHeader3,writeMsg2"),("chunk size negotiation","format/rtmp/msg.go:WriteSetChunkSize")])
p("C10","RTMP handshake: completes with every conforming peer, echoes and digests right",
 "The server completes the handshake with a peer sending any plain C1 or any digest-signed C1 in either digest layout, and answers with S0, a 1536-byte S1 and a 1536-byte S2 that echoes a plain C1 or carries a digest valid under the shared keys for a signed one; the client completes with any conforming plain or signed server and answers likewise. A wrong protocol version is refused with an error, and a connection cut at any point in the handshake yields an error, never a session.",
 ["inputs","crash_points","schedules"],"all C1/S1 contents and digest positions, all fragmentations and cut points",
 "No test runs a handshake; the digest position is a function of peer-chosen bytes.",
 [HS],[("digest location and verification","format/rtmp/handshake.go:hsCalcDigestPos,hsParse1"),("server/client roles","format/rtmp/handshake.go:handshakeServer,handshakeClient")])
p("C11","RTMP sessions agree on URL, role and outcome",
 "After a client connects for a URL to publish or play, the server session reports the same scheme, host, application, stream name and query and the matching role, and media flows in that direction only after both sides accepted. When the server refuses with an error, the client's connect or first media call fails with an error carrying the refusal, and no refusal is ever reported as success. While a session reads media, ping requests are answered with the same timestamp and received bytes are acknowledged once the peer's window is exceeded. The address dialled is the URL's host with its port or the scheme's default.",
 ["inputs","configurations","schedules"],"all URLs with an application and stream (ports, nested paths, queries), both roles, acceptance and refusal, connect parameters, arbitrary independent peers",
 "No test opens a session.",
 [CMD,"format/rtmp/url.go","format/rtmp/conn.go",MSG],[("stage machine","format/rtmp/cmd.go:Prepare"),("URL split/join","format/rtmp/url.go"),("status commands","format/rtmp/cmd.go:writePublishOrPlayResult,checkLevelStatus"),("ping/ack","format/rtmp/msg.go:handleEvent,readMsg")])
p("C12","RTMP: hostile or broken peers cannot crash or exhaust an endpoint",
 "Whatever bytes a peer sends, before, during or after the handshake and at any stage of the session, a server or client ends the session with an error or ignores the message, without panic, without spinning on a closed connection, and with memory bounded by the fixed limits on message size and on the number of chunk streams rather than by announced lengths. Messages above the size limit and chunk streams above the limit are refused with an error.",
 ["inputs","fault_sequences","crash_points"],"all peer byte streams: random, mutated valid sessions, forged lengths, chunk sizes and counts, cut at any point",
 "No test sends malformed RTMP; the peer controls every byte.",
 [MSG,CMD,HS],[("message size and chunk stream limits","format/rtmp/msg.go:readChunk"),("command parsing","format/rtmp/msg.go:arrToCommand; format/rtmp/cmd.go:readConnect")])
p("C13","H.264 NAL unit framing: split inverts join, for AVCC and Annex B",
 "Joining any list of non-empty (for start codes: legal) NAL units to length-prefixed or start-code form and splitting the result gives back the same units in order, with the form recognised (input that is valid in both forms counts as length-prefixed); Annex B input may mix three- and four-byte start codes and zero padding, and the reported offsets delimit exactly the start code and data of each unit. Input in neither form is returned as one raw unit, input is never read out of bounds, and removing emulation-prevention bytes inverts their standard insertion.",
 ["inputs"],"all lists of legal NAL units, all start code forms, and arbitrary byte strings",
 "No test covers the H.264 package.",
 [H],[("splitters","codec/h264/h264.go:splitAVCC,splitAnnexb,SplitNALUs"),("joiners","codec/h264/h264.go:JoinNALUsAVCC,JoinNALUsAnnexb"),("emulation bytes","codec/h264/h264.go:RemoveH264orH265EmulationBytes")])
p("C14","H.264 parameter sets are parsed to the values they encode",
 "For every sequence parameter set that an independent encoder produces under the H.264 syntax (all profiles, chroma formats, bit depths, scaling lists, picture order types, frame/field coding, cropping, with or without VUI timing information), parsing returns the encoded id, profile, level, constraint flags, macroblock dimensions, cropped picture width and height and frame rate; picture parameter sets return their id and the referenced sequence set. A set cut before the last of these fields gives an error, and arbitrary bytes give a result or an error without panic or unbounded work.",
 ["inputs"],"all syntactically valid SPS/PPS and arbitrary byte strings",
 "No test covers parameter-set parsing; fields are bit-packed variable-length codes whose combinations need generation.",
 [H,GOL],[("SPS parser","codec/h264/h264.go:ParseSPS,ParseSPSId"),("PPS parser","codec/h264/h264.go:ParsePPS"),("Exp-Golomb reader","utils/bits/golomb_reader.go")])
p("C15","AVC decoder configuration records round-trip and compare correctly",
 "Building a decoder configuration record from any set of sequence and picture parameter sets gives the version 1 avcC record with four-byte lengths, the profile bytes of the first sequence set and all sets in order of their ids, the same bytes for the same sets in whatever order they were added, and parsing it back gives the same sets, dimensions and record. Two codec states compare equal exactly when their parameter sets are the same, a copied state is independent of later changes to the original, and truncated records and records of another version are rejected with an error, and malformed ones are handled without panic.",
 ["inputs","histories"],"all collections of parameter sets, insertion orders and updates; arbitrary byte strings as records",
 "No test covers the record; map iteration order makes failures input- and run-dependent.",
 [H],[("record writer","codec/h264/h264.go:ToConfig"),("record parser","codec/h264/h264.go:FromDecoderConfig"),("equality and copy","codec/h264/h264.go:Equal,FromOld")],
 state=[("SPS/PPS maps","parameter sets by id","codec/h264/h264.go:Codec")])
p("C16","AAC configuration and ADTS headers round-trip and are validated",
 "Writing any valid AAC audio configuration (object type up to 95, standard or explicit sample rate, channel configuration) and parsing it gives the same configuration with the right sample rate and channel layout, and the bits are those of the standard. Filling an ADTS header for any configuration, payload length and block count and parsing it gives the same configuration, header length, frame length and sample count as an independent parser finds; malformed or short input is rejected with an error, never a panic, and the duration of one frame is 1024 samples at the configured rate.",
 ["inputs"],"all configurations and payload lengths up to the 13-bit limit, arbitrary byte strings",
 "No test covers the AAC package.",
 [AAC,BITS],[("AudioSpecificConfig","codec/aac/aac.go:ParseMPEG4AudioConfigBytes,WriteMPEG4AudioConfig"),("ADTS","codec/aac/aac.go:ParseADTSHeader,FillADTSHeader")])
p("C17","Bit-level writing and reading are exact inverses",
 "Any sequence of bit fields of 0 to 64 bits and raw byte blocks written with the bit writer and then flushed is exactly the big-endian concatenation of those fields, and reading the same fields back with the bit reader, from a reader that may return short counts, yields the same values; past the end an error is returned. Exp-Golomb reading returns the encoded unsigned and signed values for every code.",
 ["inputs","histories","fault_sequences"],"all field-width/value sequences, all byte alignments, all reader fragmentations and failing readers/writers",
 "One test writes a few literal fields; unaligned wide fields and short reads are not covered.",
 [BITS,GOL],[("bit accumulators","utils/bits/bits.go:ReadBits64,WriteBits64"),("Exp-Golomb","utils/bits/golomb_reader.go:ReadExponentialGolombCode,ReadSE")])
p("C18","Byte-order helpers, cursors, vectors and atomic time are exact",
 "Every fixed-width integer written by the byte-order helpers is the exact big- or little-endian (two's complement) representation and is read back as the same value over its whole range; cursor reads advance by exactly the width or fail with an error without moving past the end, for any cursor and any requested length. Slicing a vector of buffers over any range gives exactly the corresponding bytes of their concatenation without copying, out-of-range slices being clamped or refused consistently, and stored times that 64-bit nanoseconds can express are loaded back as the same instant, the zero time included (the Unix epoch itself stands for the zero time).",
 ["inputs"],"all values of each width, all cursor positions and lengths, all buffer vectors and ranges, all times in the representable range",
 "One vector test with fixed slices; integer helpers, cursors and time helpers are untested.",
 ["utils/bits/pio/reader.go","utils/bits/pio/writer.go","utils/bits/pio/vec.go","utils/util.go"],[("byte order","utils/bits/pio/reader.go; utils/bits/pio/writer.go"),("cursor reads","utils/bits/pio/reader.go:ReadU8..ReadString"),("vector slicing","utils/bits/pio/vec.go:VecSliceTo")])
p("C19","MP4: recorded streams are read back sample for sample",
 "For every recording of one H.264 and/or one AAC stream, writing the packets with the MP4 muxer, finishing with the trailer and opening the result with the MP4 demuxer gives the same streams with the same decoder configurations, and per stream the same samples in order: payload, type, keyframe flag, and decode time and composition offset relative to the first sample within one tick of the track's time scale, without drift over the length of the recording. The demuxer delivers every sample of every stream exactly once before end of file, and samples are interleaved by decode time. An independent ISO base media reader finds the same samples in the file, with the picture size, channel count, sample rate and durations of what was written, at normal rate and volume and untransformed (all ones where a duration does not fit the field, 0 for a sample rate that does not). Streams come from the destination's list of streams or from decoder configuration packets: sending a stream's configuration again changes nothing, another one replaces it before the stream's first packet and is refused with an error after it, and one that cannot be parsed is refused. A packet older than its predecessor in the stream is refused, a failing destination is reported at the latest by the trailer, and what would not fit the 32-bit tables is refused while the recording so far stays readable.",
 ["inputs","histories"],"all packet sequences with non-decreasing per-stream times, 1-2 streams, any keyframe pattern, payload sizes and inter-packet gaps",
 "The suite has no MP4 test. Run-length tables, chunk tables and sync tables depend on the whole history.",
 [MUX,DEM,STR],[("sample tables construction","format/mp4/muxer.go:writePacket,WriteTrailer"),("sample tables traversal","format/mp4/stream.go:setSampleIndex,incSampleIndex,readPacket"),("interleaving","format/mp4/demuxer.go:ReadPacket")])
p("C20","MP4 boxes: marshalled size, bytes and unmarshalled values agree",
 "For every box type of the MP4 box library and every value of its fields, the announced length equals the bytes produced, the leading size field covers the whole box, and parsing those bytes gives a box with the same field values and children and consumes all of it; unknown child boxes are preserved. The bytes of the boxes a player depends on have the ISO base media layout as an independent parser reads it, including the elementary stream descriptor.",
 ["inputs"],"all box trees with any field values, entry counts including zero and one, and unknown boxes",
 "No test touches the 3500 generated lines; each field offset and loop is a separate chance of error.",
 [ATO,MIO],[("generated marshallers","format/mp4/mp4io/atoms.go"),("descriptor coding","format/mp4/mp4io/mp4io.go:ElemStreamDesc")])
p("C21","MP4: standard files are demuxed and sought correctly",
 "For every standard progressive MP4 file built by an independent writer (any box order, unknown boxes, chunk layout, run-length sample tables with any split into runs, constant or per-sample sizes, 32-bit chunk offsets (data that begins below and ends above 4 GB too), signed or unsigned composition offsets, sync tables or none, one or several media data boxes with 32-bit, 64-bit or open sizes before or after the index, any elementary stream descriptor form, tracks of other codecs to skip; version-0 headers, no edit lists), the demuxer lists the H.264 and AAC streams with their configurations and returns exactly their samples with data, times, offsets and keyframe flags, by increasing time, then end of file. After seeking to any time, every video stream resumes at its last keyframe at or before the target (none of several is left where it was), audio at the sample covering the time the first video stream resumes at (the target itself if there is no video; the first or last sample for targets before or after all), and from there on the samples are the same as in a plain read, whatever was read or sought before.",
 ["inputs","histories","configurations"],"all table layouts of one to three tracks, several of one kind too, all seek targets and sequences of seeks and reads",
 "No MP4 test exists; files from other writers use table layouts the library's own muxer never produces.",
 [DEM,STR,ATO],[("sample table traversal","format/mp4/stream.go:setSampleIndex,incSampleIndex,isSampleValid"),("seek","format/mp4/demuxer.go:SeekToTime; format/mp4/stream.go:timeToSampleIndex")])
p("C22","MP4: malformed files are rejected without crash, hang or memory blow-up",
 "For any byte string, parsing boxes and opening and reading it as MP4 ends with streams and packets or an error: no panic, no endless loop, and memory and work in proportion to the file size whatever sizes, counts and offsets the file announces. A valid file truncated at any byte or with any bytes changed is handled the same way, and sample data is never made up for data that is not in the file.",
 ["inputs","crash_points"],"all byte strings, mutated and truncated valid files, forged sizes, counts, offsets and missing boxes",
 "No malformed file is tested; the number of places trusting a length is large.",
 [MIO,ATO,DEM,STR],[("box reader","format/mp4/mp4io/mp4io.go:ReadFileAtoms"),("bounds checks in generated parsers","format/mp4/mp4io/atoms.go"),("sample validity","format/mp4/stream.go:isSampleValid")])
p("C23","RTSP: RTP media is depacketized to the frames that were sent",
 "When an RTSP server plays H.264 and/or AAC over interleaved RTP, the client delivers every H.264 slice (with a four-byte length before it) and every AAC access unit of a stream in order with the bytes that were sent, the right type, keyframe flag and a timestamp equal to the RTP timestamp distance from the first delivered one divided by the clock rate (across 32-bit wrap-around; further access units of one RTP packet count 1024 ticks each), whichever legal packetization is used: single NAL units, STAP-A aggregation, FU-A fragmentation, or (as some cameras do) units with start codes before each; one, several or a fragment of an AAC access unit per packet; with CSRC lists, header extensions and padding. RTCP, unrelated interleaved blocks and responses between them, and any network fragmentation, change nothing. A lost packet costs exactly the units it carried a part of: never is a frame spliced from two different units. When both parameter sets change in the stream, ErrCodecChange is reported exactly once before the media that follows, and after HandleCodecChange delivery goes on without loss with the new codec. (RTP timestamps per stream do not decrease and leave gaps below 30 minutes.)",
 ["inputs","schedules","fault_sequences"],"all frame sequences, packetization choices, sequence and timestamp origins, interleavings of streams and RTCP, network fragmentations",
 "The only RTSP test is one SDP literal.",
 [RC],[("RTP parsing","format/rtsp/client.go:handleRtpPacket"),("H.264 depacketization","format/rtsp/client.go:handleH264Payload"),("block scanner","format/rtsp/client.go:findRTSP")])
p("C24","SDP descriptions are parsed to the described media",
 "For every session description built by an independent writer, parsing gives the session address (u=) and, for each audio or video media in order, its payload type, clock rate, control URL, codec, and format parameters (AAC configuration and size fields, H.264 parameter sets) exactly as described; attributes of one media never leak into another, including media of other kinds, which are skipped. Arbitrary text gives a result without panic.",
 ["inputs"],"all descriptions with any number, kind and order of media and attributes, line endings, and arbitrary text",
 "One literal description is tested.",
 [SDP],[("line parser","format/rtsp/sdp/parser.go:Parse")])
p("C25","RTSP sessions follow the protocol: requests, authentication, setup, teardown",
 "The client connects to the URL's host and port (554 when absent) and issues DESCRIBE, one SETUP per media (or per media the caller asked for) and PLAY in that order, one after the other was answered, with increasing CSeq, the headers the caller added, URLs without user information (a control attribute that is absolute is used as it is, an absent one or * means the base, any other is appended to the base after a slash; the base is Content-Base, else Content-Location, else the request URL), one interleaved channel pair per media, and the session id it was given, without parameters, in all later requests; OPTIONS, keepalive and TEARDOWN requests likewise. Against a server demanding Basic or Digest authentication, from whichever of OPTIONS, DESCRIBE and SETUP on and with renewed nonces, it repeats the request with credentials valid under an independent verifier for every realm, nonce, opaque value, user name and password (realm, nonce and user name without quote and backslash). Refusals, non-success statuses of any of these requests, missing or wrong credentials, and, with a timeout set, silence surface as errors, and the client goes no further; a timeout that was set back to none ends nothing. Keepalives are sent while reading if and only if asked for, and no more often than asked for.",
 ["inputs","configurations","histories"],"all URL forms, control attribute forms, header spellings and orders, auth challenges, refusal points",
 "No test opens an RTSP session.",
 [RC],[("request writer","format/rtsp/client.go:WriteRequest"),("auth","format/rtsp/client.go:handle401"),("stages","format/rtsp/client.go:prepare,Setup,Describe,Play")])
p("C26","RTSP: a hostile or broken server cannot crash or exhaust the client",
 "Whatever a server sends in responses, session descriptions, interleaved blocks and RTP packets, at any stage and cut at any point, the client returns packets or an error, without panic, endless loop, or memory out of proportion to the data received.",
 ["inputs","fault_sequences","crash_points"],"all server byte streams: random, mutated valid sessions, forged lengths, missing fields",
 "No malformed RTSP input is tested; the server controls every byte.",
 [RC,SDP],[("block scanner","format/rtsp/client.go:findRTSP"),("response parser","format/rtsp/client.go:parseHeaders,readResp"),("RTP parsing","format/rtsp/client.go:handleRtpPacket,handleH264Payload")])
p("C27","Relay server: each subscriber sees the published stream, from a keyframe on",
 "Streams of the relay server are named by the path of the URL. A subscriber of a stream receives packets of that stream only, unmodified and in publication order: the metadata and decoder configurations in force first (their payloads), then media starting at a keyframe of the current group of pictures, with each later change of configuration delivered before the media it applies to. A subscriber that keeps up gets every packet published from its starting point on without loss or duplication, one that falls behind only skips forward to a keyframe, subscribers and streams do not disturb one another, subscribers may arrive before the publisher, and when a new publisher takes over a stream the subscribers go on with its media. Connections that have ended or been replaced are released, and a stream that everyone has left starts afresh.",
 ["histories","schedules"],"all interleavings of publishers and subscribers joining, publishing, stalling, leaving and being replaced on several streams",
 "No test starts the relay; the outcome depends on the history and on goroutine scheduling.",
 [PS],[("group-of-pictures cache and cursor","cmd/avtool/pubsub.go:gopCache,gopCacheReadCursor"),("sequence header merge/split","cmd/avtool/pubsub.go:mergeSeqhdr,splitSeqhdr"),("stream registry","cmd/avtool/pubsub.go:streams.add")],
 state=[("gopCacheSnapshot","immutable view of the current GOP","cmd/avtool/pubsub.go")])
p("C28","avtool conversions preserve the media",
 "Converting FLV files to FLV files, publishing them to RTMP servers, playing RTMP streams into files, waiting for a publisher, forwarding published streams to another RTMP server and playing a file to benchmark clients preserve every packet: same order, type, payload, keyframe flag, times and metadata, up to the last one of the source; conversion to MP4 keeps the payloads of all media packets in order. The length-prefixed to Annex B converter writes exactly the NAL units of each video packet in order, and the sequence-header mover puts the parameter sets in force in front of the units of each keyframe, both without losing or altering any other packet. The commands exit with status 0 on success and non-zero when the source cannot be read, ends within a packet or the destination cannot be written or refuses; the forwarder disconnects publishers without a usable RTMP target and goes on.",
 ["inputs","configurations"],"all input files the library can read, and all pairs of source and destination kinds",
 "The command's tests need media files and are not part of the reliable suite.",
 ["cmd/avtool/conv.go","cmd/avtool/avcc2annexb.go","cmd/avtool/seqhdr.go","cmd/avtool/forwardrtmp.go",FMT],[("copy loop","cmd/avtool/conv.go:doConv"),("annexb","cmd/avtool/avcc2annexb.go"),("seqhdr","cmd/avtool/seqhdr.go"),("forward","cmd/avtool/forwardrtmp.go")])
p("C29","Opening and creating by URL picks the right format or leaves no trace",
 "Opening or creating a media by URL uses the format its scheme or file extension names (FLV and MP4 files, rtmp, rtmps, @rtmp to wait at that address for a publisher, rtsp, FLV over http), reading back what was created through the same FLV or RTMP URL, and fails with an error for an unsupported scheme or extension, a missing file or a refused request. A failed creation of an unsupported kind neither creates nor truncates any file, what cannot be written to the file is reported at the latest when the handle is closed, and closing releases the underlying file, connection or listener.",
 ["inputs","configurations"],"all URL strings, schemes, extensions and pre-existing files",
 "No test uses the opener.",
 [FMT],[("dispatch by scheme/extension","format/format.go:URLOpener.Create,URLOpener.Open")])
p("C30","Native rate limiting paces without altering the stream",
 "The native rate limiter passes every batch of packets through unchanged and in order. Packets, those of a batch one after the other, count from timestamp zero at its creation: one that goes beyond all timestamps before it is never released earlier in wall-clock time than its distance from the packet that last did so, measured from when that one was released, and not later than that either unless it comes later; packets at or behind the latest timestamp pass without delay and without disturbing the pace. The pace does not depend on how packets that come on time are grouped into batches.",
 ["inputs","histories","schedules"],"all packet batches with arbitrary, also decreasing, timestamps and arbitrary processing delays between calls",
 "No test covers pacing.",
 ["av/pktop/pktop.go"],[("sleep against wall clock","av/pktop/pktop.go:NativeRateLimiter.Do")])
p("C31","RTMP endpoints give up silent peers and keep established sessions",
 "A server ends a connection whose peer has not completed its publish or play request when the configured handshake timeout (default 10 s) has passed since the connection was handed to it, however slowly the peer's bytes arrive and wherever they stop, reports the failure once and never calls the handler; one that completed it in time is handed over. A client's connecting fails within a minute when the address does not answer or the server falls silent or dawdles at any point. Once established a session is not limited in time: whatever the pauses between its packets, all of them arrive.",
 ["inputs","schedules","fault_sequences"],"all peer timings: any pause pattern, any byte at which the peer falls silent, any timeout, any length of the session",
 "The tests use no clock; what matters is minutes and hours of silence.",
 ["format/rtmp/server.go","format/rtmp/client.go"],[("server deadline","format/rtmp/server.go:HandleNetConn"),("client deadline","format/rtmp/client.go:FromNetConn,doDial")])
p("C32","Hooks and callbacks observe exactly what happens and change nothing else",
 "Callbacks are told exactly what happens, in order. On an RTMP connection LogTagEvent sees every tag read and written; LogChunkDataEvent exactly the bytes of the chunk stream read and written; HandleEvent every message that is read (those of an aggregate one by one) except set-chunk-size, window-acknowledgement-size and user-control messages, where a message it handles is not delivered and an error it returns ends the read with that error; messages of the types in BypassMsgtypeid are delivered as tags with their raw bytes; CloseNotify of a writing endpoint fires when its peer has gone, and not before whatever the peer sends. A server calls OnNewConn once, before reading, then reports Connected and either calls HandleConn or reports HandshakeFailed; all bytes of a connection go through what ReplaceRawConn returned, which is what handlers and callers get, and which is closed in the end; clients dial host and port of the URL (1935 when absent) through NewDialFunc. The URL opener calls its OnNew... hooks exactly once with the object it then uses and hands out, and what they set takes effect. An FLV demuxer reports the file header's flags once and takes the memory for each tag body from Malloc, whose error ends the read. Hooks that only observe leave the media unchanged.",
 ["inputs","configurations","histories"],"all message sequences, hook answers and combinations of hooks, on both roles and directions",
 "No test sets a hook.",
 [MSG,"format/rtmp/wraprw.go","format/rtmp/server.go","format/rtmp/client.go",FLV,FMT],[("message hooks","format/rtmp/msg.go:handleEvent,readMsgHandleEvent,ReadTag,WriteTag,startPeekReadLoop"),("data hook","format/rtmp/wraprw.go"),("opener","format/format.go:URLOpener.Open,URLOpener.Create,StartRtmpServerWaitConn"),("demuxer hooks","format/flv/flv.go:ReadFileHeader")])
p("C33","Independent sessions, files and packets do not influence one another",
 "Objects that are used by one goroutine each do not influence one another: any number of FLV and MP4 muxers and demuxers, RTMP sessions (also of one Server, of one Client and of one URLOpener), RTSP clients, AMF, SDP and box parsers and codec functions used at the same time from different goroutines each give exactly what they give alone, without a data race. Writing a packet changes neither its payload nor the memory behind the payload, so that one packet can be written to several muxers and connections at the same time and arrives unchanged at each. A packet that an FLV or MP4 demuxer, an RTMP connection or an RTSP client has delivered never changes when reading goes on, the payloads of two delivered packets never share memory, and what the receiver does with one payload alters no packet delivered before or after it.",
 ["inputs","schedules","histories"],"all combinations and interleavings of independent objects, all packets written to several destinations, all sequences of packets read",
 "Tests use one object at a time; shared scratch memory shows only when two are active or when a packet is looked at after the next one was read.",
 [FLV,MSG,"format/mp4/demuxer.go","format/mp4/muxer.go","format/rtsp/client.go","codec/h264/h264.go","codec/aac/aac.go"],[("per-connection buffers","format/rtmp/msg.go:fillChunkHeader3,writeMsg2,aggmsg"),("per-tag memory","format/flv/flvio/flvio.go:ReadTag"),("write buffers","format/flv/flv.go:WriteTag"),("per-sample memory","format/mp4/demuxer.go:ReadPacket"),("shared server and client","format/rtmp/server.go:HandleNetConn; format/rtmp/client.go:FromNetConn")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
