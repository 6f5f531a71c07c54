#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that statements stay readable).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,obs=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if obs: a["observe_at"]=obs
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if hook: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

NOT="No existing test touches this: the 14 stable tests cover a few AMF vectors, one SDP text, one bit-writer round trip and one slice helper."

p("C01","RTMP media session delivers every packet exactly once, in order, intact",
"On an established RTMP session between two library endpoints (client publishing to server, or server playing to client), every audio, video, sequence-header and metadata packet or tag written on one side is read on the other side exactly once and in write order, with the same type, payload bytes, key-frame flag, millisecond time (any value below 2^32 ms, except that sequence headers read back with time 0), 24-bit composition time and metadata values. A packet becomes readable without any later write being needed, and nothing written before the writing side closes its connection is lost. This holds for every payload size up to the 4 MB message limit and however the transport splits the bytes.",
["inputs","schedules","histories"],"all packet sequences (types, sizes 0..4MB, times, composition times), both roles, all splits of the byte stream",
NOT+" Fidelity must hold for all sizes around chunk boundaries, all timestamps around 0xffffff and all stream splits.",
["format/rtmp/msg.go","format/rtmp/cmd.go","format/rtmp/wraprw.go","format/flv/flv.go","format/flv/flvio/flvio.go"],
[("chunk writer","format/rtmp/msg.go writeMsg2"),("chunk reader","format/rtmp/msg.go readChunk"),("packet/tag mapping","format/flv/flv.go WritePacket/ReadPacket")],
["Conn.WritePacket/WriteTag","Conn.ReadPacket/ReadTag"])
p("C02","RTMP chunk-stream reader decodes every conforming chunk sequence",
"Whatever conforming RTMP chunk stream a peer sends - any mix of message header types 0 to 3, chunk stream ids in 1-, 2- or 3-byte form (at most 16 in use), messages of different chunk streams interleaved chunk by chunk, chunk size changes, absolute and delta extended timestamps with or without their repetition on continuation chunks, and aggregate messages - the session yields exactly the media and data messages sent, completed in order, with their type, payload and absolute timestamp. How the transport splits the bytes does not matter.",
["inputs","schedules"],"all conforming chunk encodings of all message sequences within 16 chunk streams, all byte-stream splits",
NOT+" The encodings of one message sequence are combinatorially many; a test would fix one.",
["format/rtmp/msg.go","format/rtmp/wraprw.go"],[("readChunk state machine per chunk stream","format/rtmp/msg.go readChunk"),("aggregate splitting","format/rtmp/msg.go nextAggPart")],
["Conn.ReadTag/ReadPacket"],[("readcsmap","per chunk-stream header state","format/rtmp/conn.go")])
p("C03","RTMP output is a conforming chunk stream carrying exactly the written messages",
"Every byte a session writes after the handshake forms a conforming RTMP chunk stream: an independent decoder that follows only the announced chunk size recovers exactly the commands, control messages and media or data messages the session wrote, in order, with correct message length, type id, stream id and timestamp (extended form when at or above 0xffffff, repeated on continuation chunks). This holds for all payload sizes, including those at multiples of the chunk size, and all 32-bit timestamps; a message whose length does not fit the 24-bit field is refused with an error and leaves nothing on the connection.",
["inputs"],"all written tags/packets: sizes around every chunk boundary, all 32-bit timestamps, all roles",
NOT,["format/rtmp/msg.go","format/rtmp/cmd.go"],[("header and chunk splitting","format/rtmp/msg.go fillChunkHeader0, fillChunkHeader3, writeMsg2"),("chunk size announcement","format/rtmp/msg.go setAndWriteChunkSize")],["bytes written to the transport"])
p("C04","RTMP handshake authenticates, falls back and completes with any conforming peer",
"The server completes the handshake with every version-3 client: to a client whose C1 carries a valid digest (in either of the two standard layouts) it answers with an S1 carrying a valid server digest and an S2 whose digest is keyed by the client's digest; to any other C1 it answers the simple handshake with S2 equal to C1. The client sends a C1 with a valid digest, answers a digest-carrying S1 (either layout) with a C2 keyed by the server's digest and a plain S1 with C2 equal to S1. A client offering a version other than 3 is rejected without a session being established.",
["inputs","schedules"],"all C1/S1 contents, digest positions and layouts, all splits of the handshake bytes",
NOT+" The digest position depends on random bytes, so errors show only for some of the 728 positions of each layout.",
["format/rtmp/handshake.go"],[("digest search and creation","format/rtmp/handshake.go hsParse1, hsCreate01, hsCreate2"),("roles","handshakeClient, handshakeServer")],["transport bytes","Conn.Prepare result"])
p("C05","RTMP negotiation gives both sides the same role, URL and outcome",
"After connect and createStream, a publish or play request puts the server in the matching role and gives it a URL with the client's scheme, host, full path (two or more path segments) and query, plus the page URL, tcUrl and flashVer the peer sent (in either letter case of the key). If the application rejects the request before answering, the peer's publish or play fails with an error instead of appearing to succeed; if it does not, the peer's call succeeds and the accepted status is available to it. A publish, play or createStream before connect, a connect without an app, or a dial with an unsupported URL scheme is an error, never a crash or a half-open session.",
["inputs","configurations","histories"],"all URLs with at least two path segments and any query, all roles, accept/reject decisions, command orders and connect parameters",
NOT,["format/rtmp/cmd.go","format/rtmp/url.go","format/rtmp/client.go","format/rtmp/server.go"],[("command state machine","format/rtmp/cmd.go Prepare, readConnect, connectPublish, connectPlay"),("URL split and rebuild","format/rtmp/url.go splitPath, getTcURL, createURL")],["Conn.URL, Conn.Publishing, Conn.PubPlayOnStatusParams on both sides"])
p("C06","RTMP control messages are answered and obeyed at any point of a session",
"A ping request received while a session is reading is answered by a ping response with the same timestamp, once and in order; received bytes are acknowledged whenever more than the peer's announced window has arrived since the last acknowledgement, with a sequence number that never exceeds what was received and never decreases; a set-chunk-size takes effect for exactly the chunks after it. Control messages arriving between or interleaved with media, before or after the play or publish command, never disturb, duplicate or drop media messages, and messages the application claims through the event callback are delivered to it exactly once.",
["inputs","histories"],"all interleavings of control messages with commands and media, all window sizes",
NOT,["format/rtmp/msg.go"],[("control handling","format/rtmp/msg.go handleEvent"),("acknowledgement","format/rtmp/msg.go readMsg")],["bytes the session writes back","Conn.HandleEvent","Conn.ReadTag"])
p("C07","No RTMP peer can crash, hang or exhaust the process or disturb other sessions",
"Whatever bytes a peer sends in either role - before, during or after the handshake, truncated at any point, mutated or random - the session reads messages or ends with an error: no panic, no endless loop after input ends, and memory stays within a fixed bound per session (at most 16 chunk streams of at most 4 MB each, plus a constant). Every session whose peer disconnects terminates and its goroutines end, and other sessions of the same server keep delivering their media intact.",
["inputs","fault_sequences","schedules"],"all peer byte streams and truncation points, both roles, any number of concurrent sessions",
NOT,["format/rtmp/msg.go","format/rtmp/cmd.go","format/rtmp/handshake.go","format/rtmp/server.go","format/flv/flvio/amf0.go","format/flv/flvio/amf3.go"],[("length and chunk-stream limits","format/rtmp/msg.go message.Start, readChunk"),("AMF bounds checks","format/flv/flvio/amf0.go, amf3.go")],["process health, allocation counters, goroutine count","results of concurrent sessions"])
p("C08","AMF0 encoding and parsing agree with the specification in both directions",
"Every tree of supported values (numbers of any Go numeric type, booleans, strings of any length, null, millisecond dates, ordered objects and ECMA arrays with non-empty distinct keys, strict arrays, nested to 64 levels) encodes to AMF0 that a conforming decoder reads back as the same values in the same key order, and the size computed without a buffer is exactly the number of bytes written. Parsing any conforming AMF0 encoding of such values (including undefined, long strings, and any ECMA count hint) returns the same values and consumes exactly their bytes, singly, in sequence, or behind the AMF3-message format byte; a value cut short is an error. Object lookups, typed getters, set and delete behave as an ordered map.",
["inputs"],"all value trees of the supported kinds, all truncation points",
"The tests hold a handful of vectors; string-length switch points, numeric types, container nesting and truncation offsets are unbounded.",
["format/flv/flvio/amf0.go"],[("encoder","FillAMF0Val/FillAMF0Vals"),("parser","parseAMF0Val, ParseAMFVals"),("ordered map","AMFMap")],["encoded bytes","parsed values"])
p("C09","AMF parsing of hostile bytes is safe and its memory is proportional to the input",
"Parsing arbitrary bytes as AMF0 or AMF3 values returns values or an error: it never panics, never reads past the input, never advances its position beyond the input length, and allocates memory and stack at most proportional to the input length however deeply values nest and whatever counts they declare. AMF3 integers (non-negative, below 2^28), doubles, strings, booleans, dates, byte arrays, associative arrays and (named or anonymous, dynamic, sealed or both) objects without references, encoded by the specification, parse to their values.",
["inputs"],"all byte strings, including nesting bombs and forged counts; all reference-free AMF3 encodings of the listed kinds",
"Tests parse a few well-formed vectors; forged counts and nesting depth are not exercised.",
["format/flv/flvio/amf0.go","format/flv/flvio/amf3.go","utils/bits/pio/reader.go"],[("count and bounds checks","parseAMF0Val, readObject, readString, pio.Read*")],["returned error, position, allocation counters"])
p("C10","FLV files round-trip and are valid FLV for other tools",
"Any sequence of packets or tags written by the FLV muxer yields a file that a conforming FLV parser reads as one file header (with the declared audio/video flags), followed by one tag per packet with correct type, size, 32-bit millisecond timestamp (extension byte included), codec headers, 24-bit signed composition time, payload and back-pointer; the FLV demuxer reads back the same packets (type, payload, key-frame flag, times, metadata values, whatever AMF form they came in; sequence headers with time 0) and then reports end of file. A packet that does not fit a tag (16 MB and more) is refused with an error and leaves the file valid. Any conforming FLV file, including ones with a longer header, other tag types, other codecs or unknown script data, demuxes to exactly its H.264, AAC and onMetaData packets in order, however the reader splits its bytes.",
["inputs","schedules"],"all packet sequences (payloads to 16 MB, all 32-bit times, signed 24-bit composition times), all conforming files, all read splits",
NOT,["format/flv/flv.go","format/flv/flvio/flvio.go"],[("tag and header codec","flvio.FillTagHeader, ParseTagHeader, WriteTag, ReadTag"),("packet mapping","flv.WritePacket, flv.ReadPacket")],["file bytes","demuxed packets"])
p("C11","A truncated or corrupt FLV never yields wrong packets, hangs or crashes",
"Demuxing a file cut at any byte position returns exactly the packets whose tags lie completely before the cut, unchanged, and then an error, which is end of file only when the cut lies between tags; a write error at any byte position of muxing is reported to the caller and leaves a valid prefix. Demuxing arbitrary or mutated bytes ends with an error or end of file without panicking, looping on exhausted input or allocating more than one tag (16 MB) beyond what the input holds.",
["crash_points","inputs"],"every truncation point, every write-failure point, all byte strings",
NOT,["format/flv/flv.go","format/flv/flvio/flvio.go"],[("full reads and error propagation","flvio.ReadTag, flv.Demuxer.ReadFileHeader, flvio.WriteTag")],["demuxed packets and errors"])
p("C12","MP4 muxer writes a structurally valid file whose tables locate every sample",
"After the trailer is written, an independent ISO-BMFF parser finds exactly one mdat and one moov that tile the file, every box size consistent with its parent, one track per codec with its handler, time scale, sample description and decoder configuration, and track ids unique and below the next track id. In every track the sample tables agree with each other on the number of samples, their offsets and sizes address exactly the payload bytes of the packets written to that track in order, decode deltas and composition offsets reproduce the packet times relative to the track's first packet, sync samples are exactly the key frames, and durations are the sums of the deltas.",
["inputs","histories"],"all interleavings of H.264 and AAC packets with non-decreasing times per track, any sizes, key-frame patterns and composition times, single- and two-track files of track durations below 2^32 ticks and sizes below 4 GB",
NOT,["format/mp4/muxer.go","format/mp4/stream.go","format/mp4/mp4io/atoms.go"],[("table construction","muxer.go writePacket, WriteTrailer, fillTrackAtom"),("box writers","mp4io/atoms.go Marshal/Len")],["file bytes"])
p("C13","MP4 demuxing returns what was stored, in time order, and seeks to sync points",
"Demuxing a file written by the MP4 muxer, or any conforming non-fragmented MP4 with any number of H.264 and AAC tracks, possibly among tracks of other kinds (any chunking, uniform or per-sample sizes, any time scale, run-length tables; version-0 header boxes, 32-bit chunk offsets, no edit lists, first video sample a sync sample), returns the tracks' codecs and then every sample of every such track exactly once, in each track's order and merged by decode time, with its bytes, packet type, key-frame flag, decode time and composition offset, and only then end of file. Seeking to a time, at any moment and as the first thing too, positions the video track at the last sync sample at or before the sample covering that time and the other tracks at that sample's time, and reading from there continues exactly as the full read would.",
["inputs","histories"],"all sample tables and chunk layouts, all seek targets and read/seek sequences",
NOT,["format/mp4/demuxer.go","format/mp4/stream.go","format/mp4/mp4io/atoms.go"],[("sample cursor","stream.go setSampleIndex, incSampleIndex, readPacket"),("seek","stream.go timeToSampleIndex, demuxer.go SeekToTime")],["Demuxer.ReadPacket, Streams, SeekToTime results"])
p("C14","Malformed MP4 input ends in an error, never a crash, hang or memory blow-up",
"Probing and reading any byte string as MP4 - truncated at any point, with forged box sizes, counts, offsets, empty or inconsistent tables, missing boxes or zero time scales - returns samples, end of file or an error. It never panics, never loops without consuming input, and allocates memory at most proportional to the file size.",
["inputs","crash_points"],"all byte strings; every truncation point and single-field corruption of valid files",
NOT,["format/mp4/demuxer.go","format/mp4/stream.go","format/mp4/mp4io/mp4io.go","format/mp4/mp4io/atoms.go"],[("box bounds checks","mp4io ReadFileAtoms, generated Unmarshal"),("table validity","stream.go isSampleValid")],["errors, allocation counters"])
p("C15","Every MP4 box marshals to exactly its declared length and parses back equal",
"For every box type the library models, with any field values and child boxes (including unknown ones), the announced length equals the bytes written and the size field inside them, and parsing those bytes yields an equal box; boxes the library does not know are preserved byte for byte inside any container. Reading a file's box list and writing it back keeps every modelled field and every unknown box (the order of known children may become canonical; containers hold at most one of each box the model holds singly).",
["inputs"],"all values of all modelled box types, fragment boxes included",
NOT,["format/mp4/mp4io/atoms.go","format/mp4/mp4io/mp4io.go"],[("generated Marshal/Unmarshal/Len","mp4io/atoms.go"),("fixed-point and time fields","mp4io/mp4io.go")],["box bytes and values"])
p("C16","H.264 NAL units survive splitting, joining and conversion between formats",
"Joining any list of non-empty NAL units in AVCC form or (for units valid in Annex B, i.e. free of start codes and not ending in zero, whose joined bytes are not at the same time well-formed AVCC) in Annex B form and splitting the result returns the same units in order with the right format, with 3- or 4-byte start codes; converting between the forms preserves the units. Splitting arbitrary bytes never panics, never loops, and returns only slices of the input; AVCC data whose lengths do not add up is never reported as well-formed AVCC.",
["inputs"],"all NAL unit lists and sizes, all byte strings",
NOT,["codec/h264/h264.go"],[("split/join","codec/h264/h264.go SplitNALUs, JoinNALUsAVCC, JoinNALUsAnnexb")],["returned units"])
p("C17","H.264 parameter sets and decoder configurations are read and built correctly",
"Parsing any conforming sequence parameter set of the common profiles (baseline to High 4:4:4, any chroma format, scaling lists, picture-order type, cropping, frame or field coding, VUI frame timing) gives its profile, level, picture size in pixels after cropping, and frame rate; emulation-prevention bytes anywhere in it do not matter. A decoder configuration record built from parameter sets contains exactly those sets with the first SPS's profile and level, and parsing any conforming record returns its sets and re-usable configuration; a malformed parameter set given to the parser or a truncated record gives an error, never a panic or endless loop.",
["inputs"],"all conforming SPS field combinations within the levels' limits, all PPS/SPS sets, all byte strings",
NOT,["codec/h264/h264.go","utils/bits/golomb_reader.go"],[("SPS parser","codec/h264/h264.go ParseSPS"),("record codec","FromDecoderConfig, ToConfig")],["parsed fields, record bytes"])
p("C18","AAC configurations and ADTS headers convert without loss",
"For every object type, standard sample-rate index and channel configuration 0 to 7 (1 to 7 in ADTS), an AudioSpecificConfig parses to the right object type, sample rate and channel layout (escape-coded object types included), writing it back yields bytes that parse to the same configuration, and parsing and writing agree on which fields are present; a packet lasts 1024 samples at its rate. An ADTS header written for a configuration and payload length parses back to the same sample rate, channels, header length and frame length, matches an independent ADTS reader, and malformed or short headers and configurations give an error, never a panic.",
["inputs"],"all object types x rate indexes x channel configurations x frame lengths below 8 KB, all byte strings",
NOT,["codec/aac/aac.go","utils/bits/bits.go"],[("config codec","codec/aac/aac.go ParseMPEG4AudioConfigBytes, WriteMPEG4AudioConfig"),("ADTS","ParseADTSHeader, FillADTSHeader")],["parsed fields, bytes"])
p("C19","Bit and byte primitives are exact inverses and never over-read",
"Writing any sequence of bit fields (1 to 64 bits) and flushing yields the fields' bits most significant first, and reading the same widths back, through any reader however it splits its bytes, returns the same values and takes no more bytes from it than they need; Exp-Golomb codes written by the standard read back as their unsigned and signed values. Every fixed-width big- or little-endian get/put pair is an inverse with the standard byte order and sign, the checked readers fail exactly when bytes are missing and otherwise advance exactly the width, and cutting a scatter list at any range yields exactly those bytes in order.",
["inputs","schedules"],"all field widths, values, alignments, read splits, and slice ranges",
"TestBits checks one field sequence and TestVecSliceTo one list; alignment-dependent errors (fields crossing a 64-bit boundary, short reads) are outside them.",
["utils/bits/bits.go","utils/bits/golomb_reader.go","utils/bits/pio/reader.go","utils/bits/pio/writer.go","utils/bits/pio/vec.go"],[("bit IO","utils/bits/bits.go"),("golomb","utils/bits/golomb_reader.go"),("byte IO","utils/bits/pio")],["returned values, bytes"])
p("C20","RTSP playback delivers media units intact, in order and correctly timed",
"From any conforming RTSP server sending H.264 (single NAL unit, STAP-A and FU-A packetisation) and AAC (AAC-hbr, one access unit per packet) over the interleaved TCP connection, the client returns every video frame NAL unit and every audio frame exactly once per track in order, with its bytes, key-frame flag, and a time equal to its RTP timestamp distance from the track's first one at the track's clock rate, also across timestamp wrap-around. CSRC lists, header extensions and padding are skipped, and so are packets of other payload types or without payload. Packets that carry start codes are split into their units, and with SkipErrRtpBlock set malformed packets are passed over without disturbing the rest. RTCP packets and RTSP responses interleaved with the media do not disturb it, and how the transport splits the bytes does not matter. When the SPS, the PPS or both change in band the client reports a codec change, and after it is handled the new parameter sets are in force and no unit has been lost. When RTP packets are missing from the sequence, exactly the units they carried are missing, and no unit is returned with a hole or joined to another. (Outside: decreasing times within a track, several access units in one AAC packet, FU-B, STAP-B and MTAP.)",
["inputs","schedules","histories"],"all NAL/AU sizes and packetisations, timestamps, start sequence numbers, interleavings with other traffic, byte splits",
NOT,["format/rtsp/client.go","format/rtsp/stream.go"],[("interleaved framing","format/rtsp/client.go"),("depacketisation","format/rtsp/client.go handleRtpPacket, handleH264Payload")],["Client.ReadPacket"])
p("C21","RTSP session setup follows the protocol with any server",
"The client performs DESCRIBE, one SETUP per media section with a dynamic payload type (or per section the application chose), and PLAY with strictly increasing CSeq values, the Session id the server gave, the media control URL (absolute, or relative to the request URL), and distinct interleaved channels; it takes codec, payload type, clock rate and parameter sets from the SDP whatever the order, number or kind of other attributes and sections. When challenged it authenticates with a correct Basic or Digest (RFC 2617) answer for the URL's credentials, whatever characters user, password, realm and nonce contain and whichever request is challenged, and otherwise reports the refusal as an error. Keepalive requests name the session they keep alive.",
["inputs","configurations"],"all SDP layouts with H.264/AAC sections, all control URL forms, credentials, challenges and response header forms",
"TestParse checks one SDP text; nothing covers the session, URLs or authentication.",
["format/rtsp/client.go","format/rtsp/sdp/parser.go"],[("request/response loop","format/rtsp/client.go"),("SDP","format/rtsp/sdp/parser.go"),("auth","format/rtsp/client.go")],["requests seen by the server, Streams()"])
p("C22","No RTSP server can crash, hang or exhaust the client",
"Whatever a server sends - arbitrary, truncated or mutated responses, SDP, RTP or RTCP, with any declared lengths - opening and reading return packets or an error without panicking, without looping once input ends, and with memory bounded by a constant plus the bytes received. A response that never comes ends in an error once the configured timeout passes or the connection closes.",
["inputs","fault_sequences"],"all server byte streams and truncation points",
NOT,["format/rtsp/client.go","format/rtsp/sdp/parser.go"],[("length checks","format/rtsp/client.go")],["errors, allocation counters"])
p("C23","Live relay gives each subscriber an ordered, duplicate-free, gap-safe stream",
"For every schedule of one publisher and any number of subscribers on a path, each subscriber of the pub/sub relay receives media packets in publish order without duplicates or alteration; the first packet it gets, and any packet that follows a gap, is the key frame starting a group of pictures, so no frame is delivered without its predecessors back to that key frame. A gap occurs only where a newer key frame arrived before the subscriber had taken the rest of its group: one that has received everything published before a group of pictures began misses nothing of that group. The last published packets are always delivered without needing further publishes.",
["schedules","histories"],"all interleavings of publish, subscribe and slow reads; all group-of-picture lengths and packet sequences starting with a key frame",
"The relay has no tests; lost wake-ups, torn snapshots and wrong cursor arithmetic show only under particular interleavings.",
["cmd/avtool/pubsub.go"],[("snapshot cache and cursor","cmd/avtool/pubsub.go gopCache, gopCacheReadCursor"),("notification","addSub, notifySub")],["packets read by RTMP subscribers of the running relay"],
[("curst","latest immutable snapshot of the current group of pictures","cmd/avtool/pubsub.go")])
p("C24","Relay paths, late joiners, publisher changes and disconnects are isolated",
"A subscriber joining at any moment gets the metadata and sequence headers in force before the first media packet that needs them (the video header of a group of pictures is the one in force at its key frame), and again only when they change; a stream on one path never receives packets of another, however similar the names. When a new publisher takes over a path, subscribers move to its stream starting at a key frame and receive nothing more of the replaced one, whose connection is closed even when it is idle, and of publishers that start at once one remains; a slow or stalled subscriber, or any client disconnecting at any moment, never stops or corrupts delivery to the others, and connections of ended sessions are closed.",
["schedules","fault_sequences","histories"],"all join, leave, takeover, stall and disconnect schedules over any number of paths",
"The relay has no tests; these are properties of schedules and of peers' failures.",
["cmd/avtool/pubsub.go"],[("header merge and split","cmd/avtool/pubsub.go mergeSeqhdr, splitSeqhdr"),("publisher swap","setPub"),("path registry","streams.add")],["packets and connection closes seen by the relay's clients"])
p("C25","Concurrent sessions are free of data races",
"Running any number of RTMP sessions in one process - servers and clients publishing and playing, connecting, being rejected, closing abruptly, and the pub/sub and forwarding relays moving packets between them - involves no unsynchronised conflicting memory access in the library or the relays. Closing a session from another goroutine at any moment only makes its pending operations return.",
["schedules"],"all schedules of concurrent sessions, relays and closes",
"No test starts more than one goroutine or runs under the race detector.",
["format/rtmp","cmd/avtool/pubsub.go","cmd/avtool/forwardrtmp.go"],[("per-connection state, atomics and sync.Map in the relay","format/rtmp/conn.go, cmd/avtool/pubsub.go")],["race detector reports over executed workloads"])
p("C26","Native-rate pacing never releases a packet early and never alters the stream",
"The native rate limiter returns the packets it is given, unchanged and in order, and returns a packet no earlier, since the last packet that advanced the stream's time was released (or since the limiter was created, for the first), than the amount by which its time exceeds that packet's; it waits no longer than that. Packets whose time does not advance are returned without waiting.",
["inputs","schedules"],"all packet time sequences (jumps, ties, backward steps), batch sizes and delays between calls",
NOT+" Real clocks make a test either slow or flaky; virtual time makes the bounds exact.",
["av/pktop/pktop.go"],[("pacing","av/pktop/pktop.go Do")],["virtual time of each return"])
p("C27","Opening by URL picks the right format, touches nothing else, and closes durably",
"Opening or creating a URL selects the reader or writer by scheme and file extension (RTMP, RTSP, HTTP-FLV, FLV file, MP4 file output), runs the matching customisation callbacks, and yields packets equal to what the underlying format holds. An unsupported or unparsable URL returns an error and leaves the file system unchanged; closing a writer leaves a complete file holding everything written, or an error was reported; closing a reader or writer releases its file or connection.",
["inputs","configurations"],"all URLs and packet sequences",
NOT,["format/format.go"],[("dispatch","format/format.go Open, Create"),("close","Mp4WriterCloser.Close")],["files, packets, callbacks"])
p("C28","Command-line tools convert and forward streams without loss or alteration",
"Converting any source (FLV file, HTTP-FLV, RTMP, RTMP listener) to FLV or to an RTMP target preserves every packet in order with payload, key-frame flag and times (decoder configurations carry none), with the native rate not before its time, and exits with status 0 only if the source was read to its end (a command line it cannot follow ends with another status and touches no file); the Annex B conversion and the move of parameter sets into key frames rewrite only H.264 payloads, keep every NAL unit, and drop only the sequence header where documented. The forwarding server relays every packet a publisher sends to the target named in its URL and closes both sides when either ends, and the benchmark server plays the whole file to every player, at the file's pace and independently of the others.",
["inputs","schedules","histories"],"all FLV inputs and publish sequences, any number of concurrent sessions",
"The tools have no runnable tests.",
["cmd/avtool"],[("tool loops","cmd/avtool/conv.go, forwardrtmp.go, benchrtmp.go, seqhdr.go, avcc2annexb.go")],["output files and packets received by clients"])
p("C29","Hooks and options report a session exactly and observing changes nothing",
"A session, file or stream behaves the same with any observer attached (byte, chunk, message, tag and stage hooks of an RTMP connection, event hooks of RTMP clients and servers, the FLV demuxer's header hook, the RTSP debug switches) as without: the same bytes after the RTMP handshake, packets and errors, on good and on hostile input. What observers report is exact: the written-byte events of an RTMP connection concatenate to all it sent after the handshake and the read-byte events to what it consumed (everything, in a session that reads); every tag written or returned is reported once, in order, with its content; each stage is reported at most once, in order, and the role once, with the connection's URL; a server reports each connection once, and server and client report a failed negotiation once, exactly when it fails; the header hook gets a file's flags once. A sending session's close notification comes when its peer is gone, not while the peer is there, whatever the peer sends. A server set to announce sample access does so once, before the media, to each player and otherwise never; messages of types set to bypass are handed out unparsed and unchanged, in order with the tags around them. Debug fields and printed packets give type, time and length as they are, and the values of a tag as JSON in order; printing changes and breaks nothing, whatever the bytes.",
["inputs","configurations","schedules","fault_sequences"],"all sets of observers and options, all workloads, negotiation failures and closes",
NOT+" An observer that disturbs a session shows only for particular combinations of hook, role and traffic.",
["format/rtmp/wraprw.go","format/rtmp/msg.go","format/rtmp/cmd.go","format/rtmp/conn.go","format/rtmp/server.go","format/rtmp/client.go","format/flv/flv.go","format/rtsp/client.go"],
[("byte events","format/rtmp/wraprw.go Read, Write"),("tag events, bypass","format/rtmp/msg.go ReadTag, WriteTag, parseTag"),("stages, sample access","format/rtmp/cmd.go debugStage, writePublishOrPlayResult"),("close notification","format/rtmp/msg.go startPeekReadLoop"),("connection events","format/rtmp/server.go HandleNetConn, client.go FromNetConn")],
["hook calls against bytes tapped from the transport, CloseNotify in virtual time"])
p("C30","A failing file or connection is reported, never taken as success or the end",
"When an operation on the file or connection beneath a reader or writer fails (any single write, read, seek or flush of a session, at any position, once or for good), the call in progress, or for buffered writes a later one up to WriteTrailer or flush, returns an error that is not end of file. Packets read before the failure are unaltered and in order, and no session in which every call succeeded leaves the file or the peer without something it was given. This holds for the FLV and MP4 muxers and demuxers, for RTMP negotiation, writing and reading (acknowledgements and ping answers included; a failed read of a sending session gives its close notification), for the bit and AudioSpecificConfig writers and for FLV tags on their own; a server never hands over a connection whose negotiation failed, and the converter exits with a status other than 0 when its output takes nothing.",
["fault_sequences","inputs"],"every operation position of generated sessions, failing once or for good, with any error",
NOT+" Tests run on streams that never fail; an error dropped at one of dozens of call sites shows only when that one operation fails.",
["format/mp4/muxer.go","format/mp4/demuxer.go","format/flv","format/rtmp","utils/bits","codec/aac","cmd/avtool/conv.go"],
[("sample table and trailer writes","format/mp4/muxer.go WritePacket, WriteTrailer"),("sample reads and seeks","format/mp4/demuxer.go ReadPacket"),("tag reads and writes","format/flv/flv.go, flvio/flvio.go"),("negotiation, acknowledgements, pongs","format/rtmp/cmd.go, msg.go, handshake.go"),("bit writer flush","utils/bits/bits.go")],
["errors returned by each call, bytes that reached the stream"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for q in P:
        assert len(q["title"])<=80,(q["id"],len(q["title"]))
        f.write(json.dumps(q)+"\n")
print(len(P))
