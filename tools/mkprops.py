import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
FR="socket/frame.go"; CL="socket/client.go"; RT="embertree/root.go"; EL="embertree/element.go"; QE="embertree/qualified_element.go"; EF="embertree/elementFactory.go"
p("C01","Framing is transparent to how the byte stream is cut",
 "Any sequence of messages framed for the wire and carried by a byte stream is handed to the receiver exactly once, in order and byte-identical, however the stream is cut into reads, whatever the sizes and byte values of the messages, and wherever keep-alive frames are interleaved (also between the packets of one multi-packet message). A message already handed over keeps its contents afterwards. Every frame emitted is well formed for an independent S101 receiver (delimiters, escaping, CRC, packet flags).",
 ["inputs","schedules"],"all message sequences (sizes 0 to many packets, all byte values), all segmentations of the byte stream, all placements of keep-alive frames",
 "the tests feed one 4-byte message in one buffer with no reserved byte, one packet, no keep-alive and no split",
 [FR,CL],[("stream state machine (escape, BOF/EOF, reassembly by packet flags)",FR+" DecodeBuffer/HandleFrame/HandleEmberFrame"),("escaping, CRC and packet splitting",FR+" EncodeMessage/finalizeBuffer")],
 ["packets and keep-alives handed to the decoder's handlers","frames returned by the message encoder"],
 [("partial frame","bytes of the frame being received",FR+" S101Decoder.inbuf"),("partial message","packets of the message being reassembled",FR+" S101Decoder.emberbuf"),("escape","previous byte was the escape byte",FR+" S101Decoder.escaped")])
p("C02","Stream damage never becomes data and reception recovers",
 "When the inbound stream is damaged (bytes flipped, lost, inserted or repeated; frames cut short; the first or last packet of a message lost; garbage between frames), every message handed over is one that was sent or one whose packets all passed the CRC in unbroken succession: never a message with a missing, foreign or damaged piece. Damage found by the CRC is reported, and every message whose frames arrive intact after the damage is handed over exactly once.",
 ["fault_sequences","inputs","schedules"],"all damage patterns at all positions of all message streams, under every segmentation",
 "no test feeds a damaged or truncated frame",
 [FR],[("CRC check of every frame",FR+" ValidateFrame/HandleFrame"),("frame delimiters restart the receiver",FR+" DecodeBuffer"),("first/last packet flags bound a message",FR+" HandleEmberFrame")],
 ["packets handed to the decoder's handlers","errors handed to the decoder's error handler"])
p("C03","Requests leave the client whole, once and in order",
 "Every directory request the client accepts while its connection stays up is written to that connection exactly once, as one complete well-formed message, in the order in which the requests were accepted, and nothing else but keep-alive responses is written. Concurrent callers, callbacks, a slow or short-windowed peer and inbound traffic never interleave, lose, duplicate or reorder them.",
 ["schedules","histories","fault_sequences"],"all interleavings of callers, callbacks and the I/O loop, all write-side stalls, all request histories",
 "the only client test needs a device on a network and always fails; nothing is ever written in the tests",
 [CL,FR],[("outgoing queue drained by one I/O loop",CL+" packetQueue/iomanager/sendBER")],
 ["bytes received by the peer"],[("outgoing queue","requests accepted and not yet written",CL+" S101Client.outQ")])
p("C04","Every keep-alive request is answered, promptly and once",
 "Every keep-alive request received on a live connection is answered by exactly one well-formed keep-alive response on the same connection within a bounded time, whatever else is queued or arriving. Keep-alive responses received elicit nothing, and keep-alive traffic disturbs neither requests nor the delivery of messages.",
 ["schedules","histories"],"all arrival times of keep-alives relative to requests, messages (also inside multi-packet ones) and stalls",
 "no test connects a client, so the keep-alive path never runs",
 [CL,FR],[("keep-alive request handler",CL+" keepAliveReqHandler"),("keep-alive response frame",FR+" GetKeepAliveResponse")],["bytes received by the peer"])
p("C05","A directory request is answered, or times out once and on time",
 "With a timeout configured, the callback of a directory request receives the provider's answer if one arrives in time and otherwise exactly one timeout error, not before the configured time since the request and within a bounded time after it. A request whose answer was delivered never reports a timeout afterwards, whichever other requests for the same or other elements are outstanding; without a configured timeout none is reported.",
 ["schedules","histories","fault_sequences"],"all response delays (including just around the deadline), lost answers, stalls, and combinations of outstanding requests",
 "timers, answers and callbacks meet only with a live peer; no passing test runs any of them",
 [CL],[("per-request timer stopped by the answer",CL+" runTimer/_TimerCallbacks"),("answer delivery through listeners",RT+" Decode")],["calls of the request's callback, with their time"])
p("C06","Tree retrieval completes once, with the provider's whole tree",
 "Retrieving the tree from a responsive provider (which meanwhile answers nothing else) calls the callback exactly once, without error, with a tree holding every element the provider announces, at its path and with its contents, whatever the shape of the tree and the form of the provider's answers (qualified or nested; one message, or many as long as they announce elements not known before). If part of the tree cannot be retrieved the callback is still called exactly once (when a timeout is configured) and reports an error.",
 ["schedules","inputs","histories","fault_sequences"],"all tree shapes and sizes, answer forms, answer orders and delays, lost answers and interleavings",
 "no passing test performs a retrieval",
 [CL,RT,EL],[("recursive directory requests with a count of pending answers",CL+" GetTree/_RoottListeners/_ElementListeners")],["the tree handed to the callback and the number of calls"],
 [("pending count","answers the retrieval still waits for",CL+" _RoottListeners.pendingGetDirectory")])
p("C07","The local tree converges to the provider's state",
 "After any history of provider messages (directory answers, value changes, partial contents, new elements, matrix signals and connections; qualified or nested; in any split and segmentation) the local tree holds exactly the provider's announced elements, each found at its path with the latest value of every field. Fields and elements a message does not mention keep their value, and a message about an element whose parent is unknown changes nothing else.",
 ["histories","inputs","schedules"],"all sequences of provider messages of every element kind, field subset and value, in all groupings and encodings",
 "tests decode single hand-written messages into an empty tree; no test applies a second message to a tree",
 [RT,EL,EF,"embertree/parameter.go","embertree/node.go","embertree/matrix.go","embertree/matrix_element.go","embertree/function.go","embertree/content_parameter.go","asn1/decode.go"],
 [("merge of decoded elements into the tree",RT+" Decode/updateQualifiedElement/updateElement"),("element update",EL+" Update"),("lookup by path",RT+" GetElementByPath")],["elements reachable from the tree, their contents, signals and connections"])
p("C08","Listeners hear the updates of what they watch, and nothing after removal",
 "Each message that changes or confirms a watched element (or any tree-level message for a tree listener) calls every listener registered there with that element, after the message's contents for that element are in place; a listener is never called for elements it was not registered on, nor after its removal has returned on the same goroutine. Adding and removing listeners, also from inside a callback, never loses or repeats another listener's calls. The tree tells truthfully whether a listener is registered on it.",
 ["histories","schedules"],"all histories of registrations, removals (also re-entrant) and provider messages",
 "tests check that a registered listener is stored and that one direct contents change calls it",
 [EL,RT],[("listener sets on elements and on the tree",EL+" AddListener/RemoveListener/updateListeners"),("notification of modified elements after a message",RT+" Decode")],["calls of listeners, their argument and the tree as seen in the call"])
p("C09","Malformed messages cannot crash, hang or exhaust the client",
 "Whatever bytes a peer sends as message payload (corrupted, mutated, unknown tags, wrong types, absurd lengths, deep nesting), processing them ends within a number of steps and memory bounded by their size, without a crash. Afterwards the client still serves its connection: well-formed messages are applied, keep-alives answered, requests sent.",
 ["inputs","fault_sequences","histories"],"all payload byte strings, in every position of a session",
 "tests decode a dozen well-formed byte strings",
 ["asn1/decode.go",EF,RT,"embertree/parameter.go","embertree/node.go","embertree/matrix.go","embertree/matrix_element.go","embertree/function.go","embertree/connection.go",QE,CL],
 [("error returns of every decoder step","asn1/decode.go, embertree/*.go Decode*")],["termination, memory requests, later behaviour of the session"])
p("C10","Truncated messages never introduce values that were not sent",
 "When a message payload is cut short at any byte, or a length inside it exceeds what is there, the local tree afterwards contains only fields and elements it held before or that the full message states, with exactly those values: nothing padded, shortened, zeroed or attached elsewhere. What is incomplete is reported as an error or left out.",
 ["crash_points","inputs","fault_sequences"],"all cut positions of all messages in all encodings",
 "no test decodes a truncated message",
 ["asn1/decode.go",RT,EF],[("length checks of readers","asn1/decode.go NewReader/ReadLength/readStringBuffer")],["tree contents after the message","errors reported"])
p("C11","Connection loss, close and reconnect are clean",
 "When the peer closes or resets the connection the client notices within a bounded time and reports itself disconnected; when the application disconnects, nothing further is read from or written to that connection, no message beyond one being handled just then is still applied, and it is closed. After either, connecting again works and starts a clean session: no partial frame or message of an earlier session affects it and exactly one I/O loop serves it. None of these events, at any instant, crashes or blocks the client.",
 ["crash_points","schedules","fault_sequences","histories"],"all instants of close, reset, disconnect and reconnect relative to reads, writes, callbacks and requests",
 "no passing test connects",
 [CL],[("connection handle and I/O loop lifetime",CL+" Connect/Disconnect/IsConnected/iomanager")],["peer-side view of each connection, IsConnected, later sessions"],
 [("connection","current transport or none",CL+" S101Client.conn")])
p("C12","Client calls are safe from any goroutine",
 "Connecting, disconnecting, asking for the connection state, requesting a directory or the tree, setting the timeout, and adding, removing or looking up listeners may happen on any goroutines, inside callbacks, and concurrently with inbound traffic and timeouts: no data race, no crash, no deadlock, and every call returns within a bounded time. Callbacks of one client are never run concurrently with each other.",
 ["schedules","histories"],"all interleavings of API calls, callbacks, I/O loop and timers",
 "tests are single-threaded and never start the client's goroutines",
 [CL,RT,EL,QE],[("goroutines of the client sharing queue, timers, tree and connection",CL+" iomanager/runTimer/GetDirectory")],["happens-before order of all shared accesses; return of every call"])
p("C13","A full send queue rejects requests cleanly",
 "When the peer stops taking data the number of queued requests stays bounded: further requests are refused with an error at once, and a refused request is never sent and its callback is never called. Requests accepted before are unaffected, and when the peer takes data again the queue drains and new requests are accepted.",
 ["histories","schedules","fault_sequences"],"all fill levels around the limit, callers, stalls and recoveries",
 "no test fills the queue",
 [CL],[("bounded queue",CL+" packetQueue.add, maxQueueSize")],["results of requests, callbacks, bytes received by the peer"])
p("C14","Published trees arrive complete and unchanged",
 "A tree built through the library's constructors and setters (nodes, parameters, functions, matrices, qualified elements, any depth, any values), or received from a provider to be passed on, encoded, framed and sent over a link that cuts, damages or repeats what it carries, reaches both an independent Glow receiver and this library's own decoder as exactly that tree or not at all, and undamaged transmissions always arrive. Encoding does not disturb the tree, so publishing it again sends the same tree.",
 ["inputs","fault_sequences","schedules","histories"],"all trees constructible through the API, all values, all link behaviours",
 "tests compare the bytes of a few one-element trees and never decode a nested, large or matrix tree they encoded",
 ["asn1/encode.go",EL,RT,"embertree/parameter.go","embertree/node.go","embertree/matrix.go","embertree/matrix_element.go","embertree/function.go","embertree/content_parameter.go","embertree/connection.go","embertree/signal.go","embertree/label.go",FR],
 [("encoders of elements and values","embertree/*.go Encode, asn1/encode.go")],["messages decoded by an independent receiver and by the library"])
p("C15","Finished work releases its resources",
 "Once a request has been answered, has timed out or was refused, none of its timers or goroutines remain, and a stream of requests, messages or sessions does not accumulate any, nor internal listeners or other memory held by the client. Once the client is disconnected and its requests are settled no goroutine of the library runs and the connection is closed; an idle connected client waits instead of spinning without pause on a dead connection.",
 ["histories","schedules","fault_sequences"],"all request histories with answers, timeouts, refusals, disconnects and peer failures",
 "a leak needs a history of completed requests on a live connection; tests have none",
 [CL],[("timer and goroutine per request",CL+" runTimer"),("I/O loop end",CL+" iomanager")],["live goroutines, armed timers, open connections of the process and the memory reachable from the client"])
p("C16","A request always addresses the element it was made for",
 "A directory request made for any element of the tree, however the element entered the tree (qualified, nested, created locally) and whatever its siblings, depth, numbers and earlier requests, reaches the provider as a valid Glow get-directory command asking for all fields of exactly that element's path. The path an element reports is the chain of numbers from the root to it, stays so as the tree grows, and distinct elements have distinct paths.",
 ["histories","inputs","schedules"],"all tree shapes, growth histories and request orders",
 "tests read the path of one freshly decoded element; sharing of path storage between siblings needs two",
 [QE,EL,"embertree/command.go",RT],[("path computation and caching",QE+" GetPath"),("qualified and nested directory messages",QE+" GetQualifiedDirectoryMsg, "+EL+" GetDirectoryMsg"),("field flags of the command","embertree/command.go")],["requests as decoded by an independent provider; GetPath"])
p("C17","Independent clients do not influence each other",
 "Several clients, trees, decoders and encoders used in one process at the same time behave exactly as each would alone: messages, timeouts, callbacks, damage and disconnects of one never show in another.",
 ["schedules","histories","fault_sequences"],"all interleavings of two or more clients with different peers and faults",
 "no test uses two instances",
 [CL,FR,EL,RT],[("no shared mutable state between instances","package-level variables of socket, embertree, asn1")],["per-client history compared with that client's own provider"])
p("C18","Elementary values survive encoding and decoding exactly",
 "Every integer, real, boolean, string, octet string and relative OID the encoder accepts decodes to the same value.",
 ["inputs"],"all values of each type","tests use one or two values per type",
 ["asn1/encode.go","asn1/decode.go"],[("value codecs","asn1/encode.go, asn1/decode.go")],["decode(encode(v))"])
p("C19","A typed content value is readable only as what was stored",
 "A content value can be read back only with the type it was stored with, and reading an unset one reports an error.",
 ["inputs"],"all types and values","tests cover four of six types",
 ["embertree/content_parameter.go"],[("typed getters","embertree/content_parameter.go")],["getter results"])
p("C20","Console logging honours the configured level",
 "A console logger prints a message only if the message's level is enabled by the configured level.",
 ["configurations"],"all level settings and log calls","no tests for the logger",
 ["logger/logger.go"],[("level comparison","logger/logger.go")],["standard output"])
p("C21","Textual rendering shows the stored fields",
 "The textual form of any element lists the fields that are set with their values and never fails.",
 ["inputs"],"all elements","no test looks at the text",
 [EL,"embertree/parameter.go","embertree/matrix.go","embertree/node.go","embertree/function.go"],[("ToString methods","embertree/*.go")],["returned text"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
