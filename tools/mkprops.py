#!/usr/bin/env python3
# Writes /verif/properties.jsonl. The property texts live here so that they stay readable.
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- RTMP wire
prop("R01", "RTMP chunk streams are reassembled into exactly the messages that were sent",
 "Whatever legal way a peer cuts its RTMP messages into chunks (any chunk stream id form, header format 0-3, chunk size, extended timestamp, interleaving of chunk streams, abort of a partial message) and however TCP segments the bytes, the server acts on exactly the messages the peer sent, in completion order, each with its type, payload and absolute 32-bit timestamp.",
 ["inputs", "histories"],
 "every chunk-stream interleaving, header-format choice, chunk size, timestamp class and TCP segmentation of bounded message sequences",
 "Tests feed a handful of single-stream chunk sequences; nothing interleaves chunk streams or re-segments the input.",
 ["librtmp/chunk.go", "librtmp/message.go", "librtmp/control_message.go", "librtmp/rtmp.go"],
 [("chunk parser", "librtmp/chunk.go ParseChunk"), ("message assembler", "librtmp/message.go ParseMessage"), ("abort", "librtmp/control_message.go AbortMessage")],
 [("last chunk per chunk stream", "header inherited by compressed chunk headers", "librtmp/rtmp.go")],
 ["tags published to viewers", "replies on the connection"])
prop("R02", "RTMP messages the server sends decode to what it meant to send",
 "Every audio, video, data, command and control message the server writes to an RTMP connection, for any payload size, timestamp and negotiated outgoing chunk size, is a legal chunk sequence from which an independent RTMP decoder recovers the identical type, payload and 32-bit timestamp; messages written concurrently by different parts of the server do not corrupt each other.",
 ["inputs", "configurations", "schedules"],
 "every payload length around every chunk boundary, chunk size, timestamp class and message kind",
 "Tests check a few sizes and one extended timestamp with the library's own reader, so matching mistakes cancel out.",
 ["librtmp/chunk.go", "librtmp/video.go", "librtmp/audio.go", "librtmp/data_message.go", "librtmp/command_message.go", "librtmp/control_message.go", "librtmp/client.go"],
 [("chunk writer", "librtmp/chunk.go Chunk.Send"), ("message splitting", "librtmp/{video,audio,data_message,command_message}.go Send")],
 None, ["bytes written to the connection"])
prop("R03", "RTMP protocol control messages take effect exactly as specified",
 "A Set Chunk Size changes the size used for every later inbound chunk and nothing earlier; once the peer announces an acknowledgement window, an Acknowledgement carrying the running byte total is sent each time that window fills; every ping request is answered by a ping response echoing its four bytes; other control messages change nothing a peer can observe.",
 ["histories", "inputs"],
 "every sequence up to a bounded length over the control-message and media alphabet with boundary values",
 "Tests send each control message once, never in sequence with media or with each other.",
 ["librtmp/control_message.go", "librtmp/message.go", "librtmp/chunk.go"],
 [("control messages", "librtmp/control_message.go"), ("acknowledgement cadence", "librtmp/message.go ParseMessage")],
 None, ["replies on the connection"])
prop("R04", "RTMP handshake works with every conforming peer and trusts only real digests",
 "For the simple and the digest-based handshake, for every digest position in either scheme and every TCP segmentation, the server's reply has the specified sizes and order, echoes or digests the peer's data as that handshake requires, and leaves the connection positioned at the first byte after the peer's third message; a handshake packet whose digest does not verify is answered as a simple handshake, and the client side accepts what the server side produces.",
 ["inputs", "fault_sequences"],
 "all digest offsets in both schemes, all segmentations at packet boundaries, single-bit damage, truncation at every boundary",
 "Tests run one handshake of each kind at one digest offset over an unsegmented pipe.",
 ["librtmp/handshake.go"],
 [("handshake", "librtmp/handshake.go HandshakeServer/HandshakeClient"), ("digest search", "librtmp/handshake.go")],
 None, ["bytes exchanged on the connection"])
prop("R05", "RTMP command sessions follow the protocol for every order of commands",
 "For every sequence of connect, releaseStream, FCPublish, createStream, publish, play, pause, seek, receiveAudio/Video, FCUnpublish, deleteStream and closeStream, each command is answered once with the response the protocol assigns to it in that state - same transaction id on results, success status only if the operation took effect, Publish.BadName for a taken name, Play.StreamNotFound for an absent one - (createStream may be repeated; a refused connect may be answered or dropped; pause and seek are acknowledged without effect; FCUnpublish, deleteStream and closeStream are idempotent and may always be acknowledged) - and a command that is not allowed in that state neither changes what other clients see nor crashes the server.",
 ["histories"],
 "every command sequence up to a bounded length on one and two connections",
 "Tests drive two fixed command sequences (one publisher, one player).",
 ["librtmp/command_message.go", "librtmp/app.go", "librtmp/room.go"],
 [("command dispatch", "librtmp/command_message.go CommandMessage.Do"), ("responses", "librtmp/command_message.go CommandMessageResponse.Send")],
 None, ["command responses", "stream table seen by other clients"])
# ---------------------------------------------------------------- rooms
prop("R06", "A stream name has at most one publisher, whatever the ingest protocol or timing",
 "At any moment at most one ingest (RTMP publish, RTSP announce, SRT, RTMP pull) owns a given application/stream name: concurrent or repeated attempts let exactly one succeed and refuse all others, a refused attempt has no effect on the owner's stream or viewers, and while a name is owned no other ingest can take it over or remove it.",
 ["schedules", "histories"],
 "all interleavings (bounded preemptions) of two or three ingest attempts and departures on one name across the four ingest protocols",
 "Tests publish to a name once, or twice strictly one after the other over RTMP only.",
 ["librtmp/command_message.go", "librtmp/app.go", "librtmp/rtsp_ingest.go", "librtmp/srt_server.go", "librtmp/client.go", "librtmp/rtmp.go"],
 [("name lookup and claim", "librtmp/app.go Load/Store; librtmp/command_message.go PUBLISH; librtmp/rtsp_ingest.go handleAnnounce; librtmp/srt_server.go onData; librtmp/client.go Run")],
 [("stream table", "stream name to live room", "librtmp/app.go rooms")], ["publish/announce replies", "what viewers of the name receive"])
prop("R07", "When a publisher leaves, its stream ends everywhere and its name is free again",
 "However and whenever a publisher goes away (disconnect at any byte, protocol error, TEARDOWN, shutdown, leaving before sending any media), every viewer of that stream over every egress protocol is released, its segmenters stop, and the name becomes available to a new publisher whose stream works normally; nothing belonging to the new publisher is removed by the old one's departure.",
 ["crash_points", "schedules", "histories"],
 "a disconnect after every message of a publish session, in each ingest protocol, crossed with viewers joining before/after, and interleavings of departure with re-publish and join",
 "Tests never disconnect a publisher mid-session nor look at what is left behind.",
 ["librtmp/rtmp.go", "librtmp/room.go", "librtmp/app.go", "librtmp/rtsp_ingest.go", "librtmp/rtsp_server.go", "librtmp/srt_server.go", "librtmp/client.go"],
 [("cleanup", "librtmp/rtmp.go cleanup"), ("room close", "librtmp/room.go Close"), ("name removal", "librtmp/app.go Delete")],
 None, ["viewer connections", "stream table"])
prop("R08", "Each viewer sees headers first, then the stream in order from a keyframe",
 "Under every interleaving of one publisher with its viewers, what a viewer receives is: the headers published so far, then media beginning at the start of a group of pictures (if the publisher has sent a keyframe; without video: at an audio tag of the last seconds; after a group too large to keep: no video before the next keyframe), in publish order with no duplicates and no mixing of groups; a viewer that keeps up misses nothing published after it joined, a slow one may only skip forward to the start of a newer group, and every viewer is released when the stream ends.",
 ["schedules", "histories"],
 "all interleavings up to a preemption bound of a publisher script (headers, keyframes, inter frames, audio, end) with one or two readers joining and lagging at any point",
 "Tests read sequentially after writing; no schedule in which a reader wakes between two writer steps is ever forced.",
 ["librtmp/room.go", "librtmp/video.go", "librtmp/audio.go", "librtmp/data_message.go", "librtmp/rtsp_ingest.go", "librtmp/srt_server.go"],
 [("group-of-pictures broadcast", "librtmp/room.go GOP"), ("viewer loops", "librtmp/room.go RTMPJoin/FLVJoin")],
 None, ["tags delivered to viewers"], "scheduler shims substituted through a build overlay")
prop("R09", "What a publisher sends is what RTMP, HTTP-FLV and WebSocket-FLV viewers receive",
 "For every published sequence of metadata and other data, codec headers, video and audio messages (in AMF0 or AMF3 messages or aggregates, empty ones being ignored; audio-only, video-only, headers in any order or changed mid-stream, any timestamp), every RTMP, HTTP-FLV or WebSocket-FLV viewer receives the same tags byte for byte with the same timestamps, in the same order, and a viewer that joins later first gets the metadata and codec headers currently in effect.",
 ["inputs", "histories"],
 "every publish script up to a bounded length over the tag alphabet crossed with join positions and egress protocols",
 "Tests publish one fixed script with metadata, video and audio present and inspect a few bytes.",
 ["librtmp/video.go", "librtmp/audio.go", "librtmp/data_message.go", "librtmp/aggregate_message.go", "librtmp/room.go", "librtmp/server.go", "librtmp/websocket.go", "libflv/tag.go", "libflv/video.go", "libflv/audio.go", "libflv/meta.go"],
 [("ingest of media messages", "librtmp/{video,audio,data_message,aggregate_message}.go Do"), ("header backfill", "librtmp/room.go RTMPJoin/FLVJoin")],
 None, ["bytes received by viewers"])
prop("R10", "No bytes from a peer can crash or wedge the server",
 "Whatever bytes a peer sends on any listener (RTMP, HTTP-FLV/HLS/DASH, WebSocket, RTSP over TCP or its UDP ports, SRT, or as media inside a published stream), the server process keeps running, at worst drops that peer, and keeps serving other clients.",
 ["inputs", "fault_sequences"],
 "every truncation, every single-field boundary corruption and every short garbage frame of recorded valid sessions on each listener, plus every bounded message sequence with malformed bodies",
 "Tests send well-formed sessions plus a few hand-picked short inputs.",
 ["librtmp/chunk.go", "librtmp/message.go", "librtmp/control_message.go", "librtmp/command_message.go", "librtmp/video.go", "librtmp/audio.go", "librtmp/websocket.go", "librtmp/rtsp_server.go", "librtmp/rtsp_ingest.go", "librtsp/message.go", "librtsp/rtp_unpack.go", "librtsp/sdp_parse.go", "libsrt/listener.go", "libsrt/tsdemux.go", "libamf/amf0.go", "libflv/tag.go", "libhls/hls.go", "libdash/dash.go"],
 [("length and type checks in parsers", "all wire parsers")],
 None, ["process liveness", "service to another client"])
prop("R11", "A pulled remote stream is re-served like a local publish and recovers",
 "An RTMP pull performs handshake, connect, createStream and play against the configured URL, re-serves exactly the media the upstream sends under the configured local name, gives the name up when the upstream ends or fails at any point, and does not disturb a local publisher already using that name.",
 ["fault_sequences", "crash_points", "inputs"],
 "upstream failure after every message of the pull session, every accepted URL form, name already taken or not",
 "Tests parse two URLs and pull once from a healthy upstream.",
 ["librtmp/client.go", "librtmp/rtmp.go"],
 [("pull client", "librtmp/client.go pullClient.Run"), ("client command sequence", "librtmp/client.go runClientCommands")],
 None, ["requests seen by the upstream", "local stream table", "tags delivered to local viewers"])
prop("R12", "What the server keeps is bounded by who is connected and the recent past",
 "However long a stream runs, whatever it is made of (keyframes or none, audio only, changing headers or metadata, timestamps that stand still), the memory and segment files held for it stay below a fixed bound, a viewer that joins late is not sent an unbounded past and can pick the stream up at the next keyframe; and once any sequence of sessions (publish, view, pull, failed or abandoned handshakes, on every protocol) has ended, none of their memory, goroutines, sockets, open files, segment files or stream names remains.",
 ["histories"],
 "every stream that repeats a short period of message kinds for hundreds of megabytes, and every short cycle of overlapping sessions repeated dozens of times",
 "Tests run for milliseconds and end with the process; nothing measures what is left behind or runs a stream longer than a few frames.",
 ["librtmp/room.go", "librtmp/app.go", "librtmp/rtmp.go", "librtmp/rtsp_server.go", "librtmp/rtsp_ingest.go", "librtmp/srt_server.go", "librtmp/client.go", "librtmp/server.go", "librtmp/websocket.go", "libsrt/listener.go", "libhls/hls.go", "libdash/dash.go"],
 [("group of pictures kept for joiners", "librtmp/room.go GOP"), ("segment windows", "libhls/hls.go, libdash/dash.go"), ("session cleanup", "librtmp/rtmp.go cleanup, librtmp/rtsp_server.go run, libsrt/listener.go dropIdle, librtmp/app.go Release")],
 None, ["heap, goroutines, sockets and files of the process", "what a late viewer receives"], "scheduler shims substituted through a build overlay")
# ---------------------------------------------------------------- encodings
prop("A01", "AMF0 values survive encoding and decoding, and every legal AMF0 text decodes",
 "Every value built from numbers, booleans, strings, long strings, null, objects and arrays that the encoder accepts is encoded as AMF0 that an independent decoder reads back as the same value, and decoding any well-formed AMF0 sequence (objects and arrays nested in any position, empty ones, typed and date values; references excepted) yields exactly its values in order and consumes exactly its bytes.",
 ["inputs"],
 "all value trees up to a bounded depth and width over the AMF0 type alphabet, with boundary numbers and string lengths",
 "Tests decode one connect command and round-trip a few flat values.",
 ["libamf/amf0.go", "libamf/amf.go"],
 [("encoder/decoder", "libamf/amf0.go Encode/Decode")], None, ["encoded bytes", "decoded values"])
prop("F01", "FLV tags are written and read back losslessly",
 "For every audio, video and metadata tag (all codec, frame-type, packet-type and sound-format values, any body length, any 32-bit timestamp, any signed 24-bit composition time), the FLV bytes produced have the specified header, timestamp extension, body and trailing tag size, and parsing a tag body and marshalling it again reproduces it byte for byte.",
 ["inputs"],
 "all header field values and boundary lengths and timestamps",
 "Tests check one tag of each kind.",
 ["libflv/tag.go", "libflv/video.go", "libflv/audio.go", "libflv/meta.go", "libflv/flv.go"],
 [("tag writer", "libflv/flv.go FLVWrite"), ("tag parsers", "libflv/{video,audio,meta}.go")], None, ["FLV bytes"])
prop("W01", "WebSocket frames carry the stream unbroken whatever their size and timing",
 "Upgrades are accepted exactly for valid requests with the right accept key; every payload length is framed so that a conforming client recovers it, every masked or unmasked client frame is read back exactly under any TCP segmentation, pings are answered with an identical pong and close ends the session, and frames written concurrently with replies never interleave on the wire.",
 ["inputs", "schedules", "fault_sequences"],
 "all payload lengths around the three length encodings, masks, segmentations and opcodes; all interleavings of a data writer with a ping reply",
 "Tests use three payload lengths and never write from two goroutines under a controlled schedule.",
 ["librtmp/websocket.go"],
 [("framing", "librtmp/websocket.go writeFrame/readFrame"), ("upgrade", "librtmp/websocket.go upgradeWebSocket")], None, ["bytes on the socket"])
prop("C01", "AAC and AVC configuration is carried over exactly",
 "For every AAC configuration (object type 1-4, sampling index, channel configuration) and frame length, the ADTS header written describes that configuration and length; for every AVC configuration record and access unit (any NAL length size, several parameter sets), the byte stream handed to segmenters contains exactly the parameter sets and NAL units of the input, in order and uncorrupted.",
 ["inputs"],
 "all AAC configurations and all frame lengths; all NAL length sizes, parameter-set counts and NAL-type sequences up to a bound",
 "Tests use one AAC configuration and one single-parameter-set record.",
 ["libaac/aac.go", "libavc/avc.go"],
 [("ADTS writer", "libaac/aac.go"), ("AVC config and NAL conversion", "libavc/avc.go")], None, ["ADTS and Annex-B bytes"])
# ---------------------------------------------------------------- TS / HLS
prop("T01", "Transport-stream packets and PSI tables are well formed for every payload",
 "For every payload size, stream type and timestamp, the multiplexer emits whole 188-byte packets whose headers, adaptation fields, PES headers (PTS/DTS/PCR), PAT/PMT and CRC are legal and from which an independent demultiplexer recovers exactly the payload and its timestamps; parsing a produced table or packet gives back what was put in.",
 ["inputs"],
 "every PES payload size across several packet boundaries, with and without keyframe/PCR and DTS, boundary timestamps up to 33 bits, and all continuity-counter phases",
 "Tests build a few packets at a few sizes.",
 ["libmpeg/ts.go", "libmpeg/pes.go", "libmpeg/psi.go", "libmpeg/crc32.go"],
 [("packetiser", "libmpeg/ts.go Mux/NewTs/Marshal"), ("PES", "libmpeg/pes.go"), ("PSI", "libmpeg/psi.go"), ("CRC", "libmpeg/crc32.go")], None, ["transport-stream bytes"])
prop("H01", "HLS segments contain the whole stream, correctly timed and decodable",
 "For every published H.264 or H.265 stream with AAC (any frame sizes, GOP structure, composition offsets and 32-bit timestamps), the concatenated HLS segments form a valid transport stream in which every video frame and audio frame published from the first keyframe on appears once, in order, with its exact presentation and decode times, each segment starting with program tables and a keyframe with its parameter sets.",
 ["inputs", "histories"],
 "all bounded publish scripts (GOP lengths, frame sizes around packet boundaries, composition offsets of both signs, audio/video mixes, timestamp bases up to the 32-bit limit)",
 "Tests segment one short synthetic stream and look for sync bytes and file names.",
 ["libhls/hls.go", "libhls/align.go", "libhls/audio_cache.go", "libmpeg/ts.go", "libavc/avc.go", "libaac/aac.go"],
 [("segmenter", "libhls/hls.go Start"), ("audio batching", "libhls/audio_cache.go")], None, ["segment files"])
prop("H02", "HLS playlists always describe the segments that exist",
 "At every moment the media playlist is syntactically valid; lists consecutive segments in publish order ending with the newest finished one and at most the configured window; its media sequence number equals the first listed segment's and never decreases; the target duration is at least every listed duration rounded; each listed duration matches the segment's media; and every listed file exists with its final content while files that left the window are removed.",
 ["histories", "inputs"],
 "after every frame of all bounded publish scripts with varying GOP lengths, windows and target durations",
 "Tests render playlists from hand-made structures and check one live run at its end.",
 ["libhls/hls.go", "libhls/m3u8.go"],
 [("playlist writer", "libhls/m3u8.go"), ("window", "libhls/hls.go")],
 [("segment window", "finished segments in publish order", "libhls/hls.go")], ["playlist text", "segment directory"])
prop("H03", "Low-latency HLS parts tile their segments and blocking reloads return on time",
 "Partial segments advertised for a segment are contiguous, non-overlapping byte ranges starting at offset zero that cover the finished segment, the first marked independent when it begins with a keyframe; a blocking reload returns as soon as the requested media sequence and part exist, not before, also when the segment is already complete, and at the latest at its timeout or when the stream stops.",
 ["schedules", "histories"],
 "all bounded publish scripts with part boundaries at any frame; all interleavings of a waiter with segmenter progress, timeout and stop",
 "Tests never run a blocking reload concurrently with a segmenter under a forced schedule.",
 ["libhls/hls.go", "libhls/m3u8.go"],
 [("partial segments", "libhls/hls.go"), ("blocking reload", "libhls/hls.go WaitForPlaylist")], None, ["playlist text", "return time of blocking reload"])
prop("H04", "Stopping a segmenter leaves nothing behind, whatever it is doing",
 "Under every interleaving of stopping an HLS or DASH segmenter with its running loop, playlist readers and waiters, once both the stop and the loop have finished the directory contains none of that stream's files, the playlist or manifest is empty, every waiter has returned, stopping again is harmless, and no panic or deadlock occurs.",
 ["schedules", "crash_points"],
 "all interleavings up to a preemption bound of stop with segmenter steps, readers and waiters; a stop between any two frames",
 "Tests stop a segmenter only after it went idle.",
 ["libhls/hls.go", "libdash/dash.go"],
 [("stop", "libhls/hls.go Stop; libdash/dash.go Stop")], None, ["segment directory", "playlist", "waiters"], "scheduler shims substituted through a build overlay")
prop("D01", "DASH fragments and manifest describe the stream exactly",
 "For every published stream, the manifest is valid XML whose timeline lists exactly the existing media segments with their true start and duration, and the fragments contain every published video sample from the first keyframe on, once and in order, with the right size, keyframe flag, composition offset, duration and contiguous decode times, with data offsets that point at the sample bytes; each segment starts with a keyframe and ends at the first one at or past the target duration; and the manifest's picture size and codecs string are those of the init segment.",
 ["inputs", "histories"],
 "all bounded publish scripts (GOP lengths, sample sizes, composition offsets, timestamp bases, codecs)",
 "Tests run one short stream and check that files and a few box names exist.",
 ["libdash/dash.go", "libdash/mpd.go", "libmp4/media_segment.go", "libmp4/box.go"],
 [("fragmenter", "libdash/dash.go"), ("moof/mdat writer", "libmp4/media_segment.go"), ("manifest", "libdash/mpd.go")], None, ["m4s files", "manifest"])
prop("D02", "Initialisation segments describe the codec configuration exactly",
 "For every H.264 or HEVC codec configuration the initialisation segment is a well-formed box tree (sizes nest exactly, required boxes present) whose sample entries carry the codec configuration verbatim, and whose picture size equals the cropped size coded in the sequence parameter set for every profile, chroma format, cropping and picture-order mode.",
 ["inputs"],
 "all combinations of H.264 and HEVC parameter-set fields from boundary alphabets and all shapes of configuration record",
 "Tests check one parameter set and a few boxes.",
 ["libmp4/init_segment.go", "libmp4/init_segment_hevc.go", "libmp4/box.go", "libdash/dash.go"],
 [("init segment writer", "libmp4/init_segment.go, init_segment_hevc.go"), ("parameter-set parser", "libdash/dash.go")], None, ["init segment bytes"])
# ---------------------------------------------------------------- RTSP
prop("S01", "RTSP sessions answer every request once, correctly, in order",
 "For every sequence of OPTIONS, DESCRIBE, ANNOUNCE, SETUP (interleaved or UDP), PLAY, RECORD, PAUSE, TEARDOWN and unknown requests, each is answered exactly once in order with its own CSeq, the current session id and the status the protocol assigns in that state (not-found streams, unsupported transports, methods invalid in the state, unknown methods), and media flows only between PLAY or RECORD and the end of the session.",
 ["histories"],
 "every request sequence up to a bounded length over the request alphabet, against existing and absent streams",
 "Tests run one play and one record sequence.",
 ["librtmp/rtsp_server.go", "librtmp/rtsp_ingest.go", "librtsp/message.go"],
 [("request dispatch", "librtmp/rtsp_server.go run")], None, ["RTSP responses", "interleaved frames"])
prop("S02", "RTP packetisation round-trips every access unit",
 "For every H.264, HEVC, AAC or Opus frame size and NAL structure, the RTP packets produced (H.264 and HEVC ones within the payload limit; AAC frames of 8192 bytes and more may be refused) have consecutive sequence numbers (wrapping at 16 bits), one timestamp and a marker on exactly the last packet of the access unit, and reassemble - by an independent depacketiser, and for H.264 and AAC by this library - to exactly the original units; a packet lost inside a fragmented unit never yields a corrupted unit.",
 ["inputs", "fault_sequences"],
 "every NAL size around every fragmentation boundary, sequence-number phases including wrap, and every single-packet loss",
 "Tests use two sizes per codec and no loss.",
 ["librtsp/rtp.go", "librtsp/rtp_unpack.go", "librtsp/h264.go", "librtsp/hevc.go", "librtsp/aac.go", "librtsp/opus.go"],
 [("packetisers", "librtsp/{h264,hevc,aac,opus}.go"), ("reassembler", "librtsp/rtp_unpack.go")], None, ["RTP packets", "reassembled units"])
prop("S03", "RTSP media arrives and leaves intact over TCP and UDP",
 "A stream recorded over RTSP (interleaved TCP under every segmentation, or UDP with loss) reaches viewers as the units that were sent, in order and with correct relative timestamps and codec headers, and a stream played over RTSP carries every published frame after its headers, on the negotiated channels or ports, with interleaved frames never mixed into replies.",
 ["inputs", "schedules", "fault_sequences"],
 "every split point of the byte stream of a record session, every single loss, all bounded publish scripts on the play side",
 "Tests record one unsegmented stream and play one stream.",
 ["librtmp/rtsp_ingest.go", "librtmp/rtsp_server.go", "librtsp/rtp_unpack.go"],
 [("ingest loop", "librtmp/rtsp_ingest.go"), ("play loop", "librtmp/rtsp_server.go streamLoop")], None, ["tags delivered to viewers", "interleaved frames"])
prop("S04", "RTSP messages, transports and SDP parse to what they say",
 "Every well-formed RTSP request (any header case and order, body, segmentation) and SDP description is parsed to the method, URL, headers, body, media, codecs, clock rates and parameter sets it states, and every response and SDP the server produces is parsed back - by this library and by an independent parser - to the same content.",
 ["inputs"],
 "all combinations from a bounded grammar of requests, transports and descriptions",
 "Tests parse a few literal messages.",
 ["librtsp/message.go", "librtsp/sdp.go", "librtsp/sdp_parse.go"],
 [("message parser", "librtsp/message.go"), ("SDP", "librtsp/sdp.go, sdp_parse.go")], None, ["parsed structures", "produced text"])
# ---------------------------------------------------------------- SRT
prop("U01", "SRT admits a caller only through a complete, valid handshake",
 "A caller is admitted only after an induction that was answered with a nonzero cookie and a conclusion from the same address that returns that cookie; the answers carry the caller's own parameters and the server's socket id and are addressed to the caller's socket id; repeated handshake packets are answered again (a repeated induction with the same cookie) without disturbing an established session; and packets from peers that are not admitted deliver nothing and change nothing for the peers that are.",
 ["histories", "fault_sequences"],
 "every sequence up to a bounded length of handshake, data and control packets (valid, stale, duplicated, foreign) from one and two callers",
 "Tests run a single in-order handshake.",
 ["libsrt/listener.go", "libsrt/handshake.go"],
 [("handshake", "libsrt/listener.go, handshake.go")], None, ["UDP replies", "data delivered"])
prop("U02", "SRT delivers each packet once, in order, and asks for exactly what is missing",
 "For every arrival order, loss, duplication and retransmission of data packets - from any initial sequence number, across the 31-bit wrap - every packet newer than all before it is handed on at once, so each payload is handed on at most once and in increasing sequence order (packets that arrive behind it are dropped, as there is no reorder buffer), each gap is requested by one loss report naming exactly the missing numbers, and an acknowledgement states the number after the newest packet handed on.",
 ["fault_sequences", "histories"],
 "every permutation, single/double loss and duplication of bounded packet windows at several initial sequence numbers including the wrap",
 "Tests deliver in order, plus one reordering.",
 ["libsrt/listener.go", "libsrt/control.go", "libsrt/packet.go"],
 [("receive window", "libsrt/listener.go"), ("loss and ack reports", "libsrt/control.go")],
 [("expected sequence", "next sequence number to deliver", "libsrt/listener.go")], ["payloads delivered", "ACK/NAK packets"])
prop("U03", "SRT packets and crypto match the wire format",
 "Every data, control, handshake, ACK, NAK and keepalive packet is encoded to and decoded from the specified bit layout losslessly for all field values, sequence-number differences follow 31-bit modular arithmetic, and payload decryption inverts the AES counter-mode encryption keyed by the even or odd key the packet names for every packet number and payload length, passes clear packets through, and refuses packets whose key is not installed.",
 ["inputs"],
 "all flag combinations and boundary field values; all key selections, packet numbers and payload lengths around block boundaries",
 "Tests marshal one packet of each kind.",
 ["libsrt/packet.go", "libsrt/control.go", "libsrt/handshake.go", "libsrt/crypto.go"],
 [("marshal/parse", "libsrt/packet.go, control.go, handshake.go"), ("crypto", "libsrt/crypto.go")], None, ["packet bytes"])
prop("U04", "Transport streams received over SRT become the published frames",
 "For every multiplexing of an H.264/AAC transport stream (packet segmentation into datagrams, PES sizes, several frames per packet, stuffing, repeated tables, timestamps across the 33-bit range), the frames handed on are exactly the access units sent, with their times and keyframe marks, and the stream's viewers get valid codec headers before media; damage to some packets affects only the units they carried.",
 ["inputs", "fault_sequences"],
 "every datagram split, PES size around packet boundaries, and every single-packet loss of bounded streams",
 "Tests demux one tiny hand-made stream.",
 ["libsrt/tsdemux.go", "librtmp/srt_server.go"],
 [("demultiplexer", "libsrt/tsdemux.go Feed"), ("tag synthesis", "librtmp/srt_server.go")], None, ["access units", "tags delivered to viewers"])
prop("N01", "HTTP requests reach exactly the stream and file they name",
 "For every request path, the HTTP front ends answer with the stream or segment the path names and nothing else: malformed paths, unknown applications, unknown streams and unknown files are refused with client-error statuses, on-demand segmenting is started at most once per stream, and no path or stream name can read or write a file outside that application's segment directory.",
 ["inputs", "schedules"],
 "all paths from a bounded grammar (empty, dotted, encoded, nested, absent components), stream names with separators, and two concurrent first requests",
 "Tests check a few URLs and a single first request.",
 ["librtmp/server.go", "libhls/hls.go", "libdash/dash.go", "librtmp/app.go"],
 [("URL parsing", "librtmp/server.go parseFlvURL/parseHlsURL"), ("file serving", "librtmp/server.go handleHls/serveDASH")], None, ["HTTP responses", "files on disk"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
