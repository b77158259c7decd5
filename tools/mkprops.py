#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long records stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

NOTEST = "The root package and tcpnetwork have no tests at all; the only tests (package sdp) never open a connection. "

prop("C01", "Inbound framing is independent of how bytes arrive",
 "For any stream protocol the user plugs into a TCP connection, the data events it delivers are exactly the complete messages in the bytes the peer sent: each once, in order and byte-identical, however those bytes are split, delayed or scheduled. "
 "When the peer ends the connection in an orderly way every complete message it sent before has been delivered, and a trailing incomplete message never is; after any other ending what was delivered is a prefix of that sequence. "
 "The bytes of a delivered message never change later.",
 ["inputs", "schedules", "fault_sequences"],
 "all byte streams of framed messages (fixed length incl. zero length and the maximum length, delimiter terminated, with and without content), all segmentations, short reads, delays and cut points, all interleavings of the connection's goroutines",
 NOTEST + "Segmentation, cut points and goroutine schedules are unbounded; a sample of one loopback exchange reaches one of them.",
 ["tcpnetwork/tcpnetwork.go", "tcpnetwork/tcpinterface.go", "rtpstreamprotocol.go"],
 [("read loop that assembles header, body and content", "tcpnetwork/tcpnetwork.go unpack/read/routineRead"), ("copy of each message before it is handed out", "tcpnetwork/tcpnetwork.go unpack"), ("RTSP/RTP framing", "rtpstreamprotocol.go")],
 [("read buffer", "bytes of the message being assembled", "tcpnetwork/tcpnetwork.go routineRead")],
 ["ConnEvent values passed to the event handler"])

prop("C02", "Sent messages reach the peer whole, in order, none skipped",
 "Messages sent on a connection by any number of concurrent goroutines reach the peer whole and unmodified (also when the caller reuses its buffer after asking for a copy), each directly preceded by its protocol header, never interleaved with one another, in the order each goroutine sent them and with nothing skipped or repeated. "
 "If the caller then closes the connection and the peer keeps reading, everything sent before the close reaches the peer before the connection ends.",
 ["inputs", "schedules", "fault_sequences"],
 "all numbers of senders, message sizes (including larger than internal buffers), queue sizes, peer reading speeds and stalls, write failures at any byte, and interleavings with Close",
 NOTEST + "Ordering and completeness depend on the interleaving of senders, writer goroutine, close and a peer that stops reading.",
 ["tcpnetwork/tcpnetwork.go"],
 [("send queue and single writer goroutine", "tcpnetwork/tcpnetwork.go Send/sendRaw/routineSend"), ("close marker queued behind earlier messages", "tcpnetwork/tcpnetwork.go Close")],
 [("send queue", "messages accepted and not yet written", "tcpnetwork/tcpnetwork.go sendMsgQueue")],
 ["bytes received by the peer"])

prop("C03", "A connection reports one Connected, then data, then one Disconnected",
 "Every started connection reports Connected exactly once and first, then data, then Disconnected exactly once and last, whatever ends it: orderly or abortive close by the peer, local close, write failure, oversized message, read timeout, a panicking handler or protocol. "
 "When Disconnected is reported the underlying network connection has been closed and the status is disconnected; while Connected and data are reported the status is connected unless the connection is already ending. "
 "Afterwards no goroutine of the connection remains, and further Send and Close calls return at once without effect or panic.",
 ["schedules", "fault_sequences", "histories"],
 "all ways and instants at which a connection can end, all interleavings of reader, writer, Send and Close callers",
 NOTEST + "The order of events and the release of goroutines depend on which goroutine notices the end first.",
 ["tcpnetwork/tcpnetwork.go"],
 [("routine wrapper that recovers, closes and posts the last event", "tcpnetwork/tcpnetwork.go routineMain"), ("status guard", "tcpnetwork/tcpnetwork.go close/Send/Close")],
 [("status", "none, connected, disconnected", "tcpnetwork/tcpnetwork.go Connection.status")],
 ["events passed to the handler", "GetStatus", "Close of the underlying net.Conn", "live goroutines"])

prop("C04", "Send and Close stay bounded against a stalled peer",
 "Whatever the peer does, a Send or Close call on a connection returns within the 5 second send timeout, and a Send that cannot be queued within it closes the connection. "
 "Once Close has been called, or a write has failed, the underlying network connection is closed and Disconnected is reported within a bounded time, even if the peer has stopped reading and unsent messages are queued; a peer that merely pauses for less than the timeout loses nothing.",
 ["schedules", "fault_sequences"],
 "all stall instants and durations (short of, at and beyond the timeout), queue sizes, numbers of senders, write failures at any byte",
 NOTEST + "Needs minutes of stalled peers at chosen instants; only a simulated clock and peer reach these histories.",
 ["tcpnetwork/tcpnetwork.go"],
 [("bounded wait for queue space", "tcpnetwork/tcpnetwork.go sendRaw/Close"), ("writer goroutine", "tcpnetwork/tcpnetwork.go routineSend")],
 [("send timeout", "5 s", "tcpnetwork/tcpnetwork.go connConfDefaultSendTimeoutSec")],
 ["simulated duration of Send/Close calls", "time of Close on the underlying net.Conn", "Disconnected event"])

prop("C05", "Read timeout drops silent peers and only silent peers",
 "On a connection with a read timeout of N seconds, a peer from which nothing more arrives is disconnected no later than N seconds after its last byte. "
 "A connection is never dropped by the timeout while each part (header, body, content) of every message is complete within N seconds of the preceding part, however long the connection lives; with no read timeout an idle connection is never dropped.",
 ["schedules", "fault_sequences", "histories"],
 "all timeouts, message layouts, arrival times (including just before, at and just after the limit) and segmentations",
 NOTEST + "Depends on the clock: deadlines re-armed per part over long lives; no test runs a clock.",
 ["tcpnetwork/tcpnetwork.go"],
 [("deadline re-armed before header, body and content", "tcpnetwork/tcpnetwork.go unpack"), ("timeout setting", "tcpnetwork/tcpnetwork.go SetReadTimeoutSec")],
 [("read timeout", "seconds, 0 = none", "tcpnetwork/tcpnetwork.go readTimeoutSec")],
 ["time of the Disconnected event in simulated time"])

prop("C06", "Play performs a conforming RTSP handshake over any delivery",
 "Against a server that answers every request within the timeout, Play sends DESCRIBE, one SETUP per media in SDP order with the right track URL (the control attribute as it is if absolute, the request URL itself if it is absent or '*', otherwise the request URL and the attribute joined by exactly one slash) and a distinct interleaved channel pair 2i-2i+1, then PLAY, each only after the previous response was received, with strictly increasing CSeq and with every request after the first SETUP response (TEARDOWN included) carrying exactly the session identifier the server assigned (and none before, not even an empty one). "
 "It then returns success, and the published media map describes exactly the media of that SDP (with any of the optional lines of RFC 4566) under their channel numbers; if the server answers any step with a status other than 200 (apart from the one 401 that leads to authentication) Play stops there with an error. "
 "The outcome does not depend on segmentation, delays below the timeout, interleaved media or goroutine scheduling.",
 ["inputs", "schedules", "fault_sequences", "histories"],
 "all server scripts (SDPs, header spellings, session identifiers, status codes), segmentations, delays under the timeout, RTP/RTCP interleaved at any message boundary, all schedules",
 NOTEST + "The handshake crosses four goroutines and a network; lost first requests and mixed-up responses appear only under particular schedules.",
 ["rtspclient.go", "rtsprequest.go", "rtspparser.go", "sdpparser.go", "sdp/decoder.go"],
 [("request sequence", "rtspclient.go sendRequest"), ("request formatting", "rtsprequest.go"), ("response parsing", "rtspparser.go"), ("SDP to media map", "sdpparser.go parsingSDP")],
 [("cseq, session id", "protocol state of the session", "rtsprequest.go RtspClientContext")],
 ["requests received by the server", "return value of Play", "media map"])

prop("C07", "Play always ends, with exactly one matching outcome event",
 "Whatever the server does (refuses or never completes the connection, stays silent at any step, answers late, disconnects or resets at any byte), Play and its WebSocket variant return within a bounded time: connection timeout plus at most the response timeout per request and a fixed allowance. "
 "They return success only if every step was answered with 200; on a connected session exactly one outcome event is reported, success if and only if Play returns nil; if no connection could be made the result is an error and one disconnected event.",
 ["schedules", "fault_sequences"],
 "all steps at which the server can go silent, late, away or abortive, all delays around the timeout, all schedules",
 NOTEST + "A hang against a silent server needs a clock and a peer that fails at a chosen step.",
 ["rtspclient.go", "tcpnetwork/tcpnetwork.go"],
 [("response wait with timeout", "rtspclient.go WaitRtspResponse"), ("outcome event", "rtspclient.go sendRequest"), ("dial timeout", "rtspclient.go Play")],
 [("timeoutSec", "2 s response and connect timeout", "rtspclient.go RtspClientSession")],
 ["simulated duration and result of Play", "events"])

prop("C08", "Authentication answers the challenge and never leaks credentials",
 "When the server challenges the first request with 401 and the URL carries credentials, the client retries exactly once with an authorization computed from the server's realm and nonce (Digest with MD5 if offered, otherwise Basic; challenges with another algorithm are ignored) that the server can verify, and every further request of that session carries a valid authorization for its own method; if the retry is rejected Play fails without further requests. "
 "Credentials are never sent before a challenge, never appear in a request URL, and never are sent to a server whose own URL did not contain them; without credentials a challenge simply makes Play fail.",
 ["inputs", "schedules", "histories", "fault_sequences"],
 "all realms, nonces, header orders and spellings, users and passwords, challenges offering Digest, Basic or both, histories of several Play calls on one session to different servers, all segmentations and schedules",
 NOTEST + "Requires a challenging peer over a history of connections; the leak appears only on a second Play.",
 ["authenticator.go", "rtspparser.go", "rtspclient.go", "rtsprequest.go"],
 [("challenge parsing", "rtspparser.go parsingAuthenticate"), ("authorization computation", "authenticator.go createAuthenticatorString"), ("retry logic", "rtspclient.go sendRequest")],
 [("authenticator", "challenge and credentials in use", "rtsprequest.go RtspClientContext.authenicator")],
 ["Authorization headers received by the server"])

prop("C09", "Media is delivered complete, in order, per channel",
 "While a session plays, the data callbacks for each channel deliver exactly the media units the server packetised on that channel: H.264 and H.265 NAL units sent as single packets, fragments or aggregates, marker-delimited frames, or whole payloads for other codecs, each once, in order, byte-identical, tagged with their channel and session, regardless of segmentation, scheduling, interleaving of channels, RTCP, unknown channels or RTSP responses. "
 "If the server closes the connection in an orderly way every unit completed before is delivered and nothing else is; after any other ending the delivered units are a prefix; delivered data never changes later.",
 ["inputs", "schedules", "fault_sequences"],
 "all packetisations within the formats named (RTP headers with or without contributing sources, extensions and padding; units up to 8 MiB), all interleavings of channels and responses, segmentations, cut points, schedules",
 NOTEST + "Assembly state spans packets, channels and goroutines; correctness for every interleaving and cut cannot be sampled by unit tests.",
 ["rtspclient.go", "rtpparser.go", "h264rtpparser.go", "hevcrtpparser.go", "markrtpparser.go", "simplertpparser.go", "rtpstreamprotocol.go"],
 [("channel demultiplexing", "rtspclient.go parsingRtp"), ("assembly buffer", "rtpparser.go pushData"), ("fragment and aggregate handling", "h264rtpparser.go, hevcrtpparser.go")],
 [("payload buffer", "fragments of the unit being assembled", "rtpparser.go RtpParser")],
 ["data callback"])

prop("C10", "No server byte stream can crash or wedge the client",
 "No bytes a server sends, at any point of the handshake or stream and under any schedule, make the client process panic, exit or overflow its stack: malformed status lines, headers, lengths, SDP documents, RTP packets and framing only lead to errors, ignored data or disconnection. "
 "Play still returns within its time bound, and after Close every goroutine of the session ends.",
 ["inputs", "schedules", "fault_sequences"],
 "all byte corruptions, truncations, insertions and malformed messages at any position of an otherwise valid session, all segmentations and schedules",
 NOTEST + "The sdp tests try 45 fixed bad documents; none goes through the client, whose reaction to a bad document or packet decides whether the embedding process survives.",
 ["rtspclient.go", "rtspparser.go", "sdpparser.go", "sdp/decoder.go", "rtpparser.go", "h264rtpparser.go", "hevcrtpparser.go", "markrtpparser.go", "simplertpparser.go", "rtpstreamprotocol.go", "tcpnetwork/tcpnetwork.go"],
 [("length checks", "tcpnetwork/tcpnetwork.go unpack"), ("parse errors returned as errors", "rtspparser.go, sdpparser.go"), ("packet validation", "rtspclient.go parsingData/parsingRtp")],
 [], ["process survival", "return of Play", "live goroutines"])

prop("C11", "One disconnected event per session connection, and nothing after it",
 "Every connection a session establishes ends in exactly one disconnected event, whatever ends it, provided the peer or the application ends it; no data callback and no second disconnected event for that connection follows. "
 "It is reported within a bounded time of the end even while unread responses are pending, and then no goroutine of that connection remains.",
 ["schedules", "fault_sequences", "histories"],
 "all instants and ways of ending (during handshake or streaming, by peer, application or timeout), responses pending or late, all schedules",
 NOTEST + "Depends on which of reader, dispatcher and application goroutine acts first and on late responses.",
 ["rtspclient.go", "tcpnetwork/tcpnetwork.go"],
 [("event dispatcher", "rtspclient.go HandleConn"), ("final event of the connection", "tcpnetwork/tcpnetwork.go routineMain")],
 [("event queue", "connection events not yet dispatched", "rtspclient.go eventQueue")],
 ["event and data callbacks", "live goroutines"])

prop("C12", "Closing a session is safe, bounded and releases everything",
 "Close may be called at any moment, from any goroutine or callback, repeatedly, before the first Play, during Play and after the connection has ended; it never panics and returns within a bounded time whatever the server does. "
 "On a playing session whose server answers, the server receives exactly one TEARDOWN with the session identifier before the connection ends; in every case the network connection is closed, a Play in progress returns, and all goroutines of the connection end within a bounded time.",
 ["schedules", "fault_sequences", "histories"],
 "all instants of Close relative to Play, streaming, callbacks and disconnection, servers that answer, stay silent or stop reading, all schedules",
 NOTEST + "The interleavings of Close with the other goroutines and a failing peer are unbounded.",
 ["rtspclient.go", "rtsprequest.go", "tcpnetwork/tcpnetwork.go"],
 [("teardown then close", "rtspclient.go Close"), ("graceful close of the connection", "tcpnetwork/tcpnetwork.go Close")],
 [], ["requests received by the server", "simulated duration of Close", "live goroutines"])

prop("C13", "A session can be played again as if it were new",
 "After a session's connection has ended, playing it again, from the disconnected callback or from any other goroutine and to the same or another server, behaves like a first play of that server: its outcome, requests, published media map (empty if it failed before the new server described its media) and delivered media depend only on the new server. "
 "No partial media, channel assignment, response, session identifier or event queue state of an earlier connection affects the new one, and the end of the old connection does not disturb it.",
 ["histories", "schedules", "fault_sequences"],
 "all histories of plays with different media sets and codecs, all ways and instants (mid-unit, mid-handshake) the previous connection ended, all schedules of the old connection's remaining goroutines",
 NOTEST + "Needs histories of several connections with a race between the old one's shutdown and the new one's start.",
 ["rtspclient.go", "rtpparser.go", "rtsprequest.go"],
 [("per play reset", "rtspclient.go sendRequest/SetConnection"), ("dispatcher shutdown", "rtspclient.go HandleConn")],
 [("media map, channel map", "tracks of the current play", "rtspclient.go RtspClientSession")],
 ["requests received by the server", "media map", "data and event callbacks"])

prop("C14", "Unawaited responses neither stall the stream nor mislead requests",
 "A complete RTSP response that arrives while nobody waits for one (unsolicited, duplicate, or to a request whose wait was abandoned) does not delay or drop media, the disconnected event or the shutdown of the session. "
 "A response received before a request is sent is never taken as the answer to that request.",
 ["schedules", "fault_sequences", "histories"],
 "all numbers and instants of unsolicited or duplicate responses relative to media, later requests, Close and disconnection, all schedules",
 NOTEST + "Requires a misbehaving peer and a particular order of dispatcher and application goroutines.",
 ["rtspclient.go"],
 [("response hand-over", "rtspclient.go parsingRtsp/WaitRtspResponse"), ("request start", "rtsprequest.go sendRequst")],
 [("response queue", "responses not yet taken", "rtspclient.go rtspResponseQueue")],
 ["data callback", "result of WaitRtspResponse", "disconnected event"])

prop("C15", "WebSocket transport behaves like TCP",
 "Playing over a WebSocket gives the same requests, outcome, media and events as playing over TCP, however the server splits or joins the byte stream into WebSocket messages and frames (empty, fragmented, larger than any internal buffer, with control frames in between); each request goes out as binary message data. "
 "An error of the handshake is returned to the caller; when either side ends the connection, or the server ignores a close, the network connection is closed and the session's goroutines end within a bounded time, without a panic.",
 ["inputs", "schedules", "fault_sequences"],
 "all re-chunkings into messages and frames, control frames at any point, server failures and stalls at any point, all schedules",
 NOTEST + "Message boundaries, concurrent close and write, and unresponsive peers need a simulated WebSocket server.",
 ["websocketconn.go", "rtspclient.go"],
 [("adapter from messages to a byte stream", "websocketconn.go Read/Write"), ("close handshake", "websocketconn.go Close"), ("play over websocket", "rtspclient.go PlayUseWebsocket")],
 [], ["frames received by the server", "results, events and data as for TCP"])

prop("C16", "Concurrent sessions do not affect one another",
 "Several sessions used at the same time in one process behave exactly as each would alone: requests, outcomes, media maps, media and events of one never depend on or contain anything of another, also when one of them fails, stalls or receives malformed data.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of two or more sessions at statement granularity, with different servers, codecs, SDPs, faults and endings",
 NOTEST + "The sdp tests decode one document at a time on one goroutine; shared state shows only when several sessions overlap.",
 ["rtspclient.go", "rtpparser.go", "sdpparser.go", "sdp/decoder.go", "sdp/sdp.go", "tcpnetwork/tcpnetwork.go", "authenticator.go"],
 [("all state held per session and per parser", "rtspclient.go, rtpparser.go, sdp/decoder.go")],
 [], ["per-session results, requests, data and events"])

prop("C17", "The library's goroutines share memory without data races",
 "In every execution in which the application uses one session or connection within its contract (control calls from one goroutine, Close, status queries and sends from any), no two goroutines access the same variable or map without synchronisation, at least one of them writing. "
 "In particular media arriving while tracks are still being set up can never abort the process through concurrent map access.",
 ["schedules", "fault_sequences", "histories"],
 "all schedules of application, reader, writer and dispatcher goroutines over handshake, streaming, sends, close, disconnect and re-play, media arriving at any step",
 NOTEST + "The sdp tests are single-threaded; a race needs the client running against a peer, and its effect shows under rare schedules only.",
 ["rtspclient.go", "rtsprequest.go", "rtpparser.go", "tcpnetwork/tcpnetwork.go"],
 [("hand-over by channels", "rtspclient.go, tcpnetwork/tcpnetwork.go"), ("shared status and channel map", "tcpnetwork/tcpnetwork.go status, rtspclient.go rtpChannelMap")],
 [("status, channel map, request state", "shared by several goroutines", "rtspclient.go, tcpnetwork/tcpnetwork.go")],
 ["accesses to fields, globals and maps with the happens-before order of the run"])

prop("C18", "Control requests are one at a time and matched to their response",
 "On a playing session each control request (describe, setup, play, pause, teardown) sent by the application is transmitted exactly once, well-formed, with the next CSeq, the session identifier and the parameters given (start time, speed), and the following wait returns the server's response to it, while media keeps flowing. "
 "A further request before that wait has returned is refused with an error and transmits nothing; a wait with no answer returns an error within the response timeout and ends the connection, a wait interrupted by disconnection returns an error at once or within that timeout.",
 ["histories", "schedules", "fault_sequences"],
 "all sequences of control calls and waits, response delays around the timeout, disconnections, media in between, all schedules",
 NOTEST + "Depends on the order of calls, responses and timeouts.",
 ["rtsprequest.go", "rtspclient.go"],
 [("outstanding-request flag", "rtsprequest.go Send*"), ("response wait", "rtspclient.go WaitRtspResponse")],
 [("request outstanding flag", "a request was sent and its response not awaited", "rtspclient.go rtspRequestInitial")],
 ["requests received by the server", "results of the calls"])

SDPT = "The sdp tests sample a few dozen fixed documents. "
prop("N01", "SDP encode and decode are inverse",
 "Encoding any representable session description and decoding the result yields an equal description, and decoding a well-formed document yields the values written in it (per-media connection data, repeat times and IPv6 address counts included).",
 ["inputs"], "all session descriptions", SDPT + "All inputs cannot be sampled.",
 ["sdp/encoder.go", "sdp/decoder.go", "sdp/fields.go"], [("encoder and decoder", "sdp/")], (), ["Append/AppendTo/Decode"])
prop("N02", "SDP decoding is total",
 "Decoding any byte string or list of lines as a session description returns a description or an error in time linear in its length, without a panic.",
 ["inputs"], "all byte strings and line lists", SDPT + "All inputs cannot be sampled.",
 ["sdp/decoder.go", "sdp/sdp.go"], [("section ordering and field decoders", "sdp/decoder.go")], (), ["DecodeSession, Decoder.Decode"])
prop("N03", "Re-using SDP buffers does not corrupt results",
 "Decoding or building sessions into re-used memory gives the same result as into fresh memory, earlier results that are no longer re-used included, and input buffers may be overwritten afterwards.",
 ["inputs", "histories"], "all sequences of decode, append and reset with re-used buffers", SDPT + "Histories of re-use are not sampled.",
 ["sdp/sdp.go", "sdp/decoder.go"], [("line memory re-use", "sdp/sdp.go getLine/DecodeSession")], (), ["Session, Message values"])
prop("N04", "NTP time conversion is exact",
 "Converting any time representable in an SDP timing field to an NTP timestamp and back is the identity, zero meaning no time.",
 ["inputs"], "all timestamps", SDPT, ["sdp/fields.go"], [("TimeToNTP/NTPToTime", "sdp/fields.go")], (), ["TimeToNTP, NTPToTime"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
