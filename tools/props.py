import json
P=[]
ENC=["mqtt/packets/connect.go","mqtt/packets/publish.go","mqtt/packets/subscribe.go","mqtt/packets/unsubscribe.go","mqtt/packets/puback.go","mqtt/packets/disconnect.go","mqtt/packets/auth.go","mqtt/packets/packet.go","mqtt/packets/primitives/string.go","mqtt/packets/primitives/varint.go"]
DEC=["mqtt/packets/connack.go","mqtt/packets/publish.go","mqtt/packets/puback.go","mqtt/packets/suback.go","mqtt/packets/unsuback.go","mqtt/packets/disconnect.go","mqtt/packets/auth.go","mqtt/packets/packet.go"]
CL=["mqtt/client.go"]
def p(id,title,st,over,q,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs:a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
notest="The only existing test exercises the topic matcher; "
p("C01","Length fields of every encoded packet are exact",
 "For every control packet value that any packet type's WriteTo encodes successfully (total size below 4 GiB), the Remaining Length in the fixed header equals the number of bytes that follow it, and every property-length field equals the number of bytes of the properties that follow it. The byte count that WriteTo returns equals the number of bytes it wrote.",
 ["inputs"],"all packet values: every combination of set and unset optional fields, all string and payload lengths, any number of user properties and topics",
 notest+"no encoder is run at all, and a wrong length shows only for particular combinations of optional fields and sizes (2^20 combinations in CONNECT alone).",
 ENC,[("length computation and emission are two passes over the same fields in WriteTo",f) for f in ENC[:7]])
p("C02","Encoded packets follow the MQTT 5 layout",
 "Every packet that a WriteTo produces has the packet type and reserved flag bits that MQTT 5 gives to that packet, its variable header and payload fields in the order and with the wire types of the specification, and each property with the identifier and wire type that the specification assigns to the packet field it carries. A field that is set (non-zero, non-empty) is emitted exactly once in its place, an optional field that is not set is left out, and CONNECT's user name, password and will are in the payload exactly when their flag bits are set.",
 ["inputs"],"all packet values with a zero fixed header field, which the encoder fills in",
 notest+"no encoder is run, and each property identifier shows only in packets that set that field.",
 ENC,[("emission order and property identifiers in WriteTo",f) for f in ENC[:7]])
p("C03","Decoders accept exactly the properties MQTT 5 defines",
 "For every packet that the server may send, each property identifier that MQTT 5 allows in that packet is decoded with the wire type of the specification and stored in the packet field for that property, and any other identifier makes the decoder return an error. The fields in front of and behind the properties are decoded in the order and with the wire types of the specification; a PUBLISH with QoS 3, or with QoS above 0 and packet identifier 0, is refused with an error. A packet that MQTT 5 allows is never refused.",
 ["inputs"],"all byte sequences a server can send, all property identifiers 0-255 in every decodable packet type",
 notest+"no decoder is run, and there are 256 identifiers for each of 10 packet types.",
 DEC,[("switch on the property identifier in ReadFrom",f) for f in DEC[:7]])
p("C04","A decoder consumes exactly one packet, or fails",
 "Given the fixed header, every packet decoder (ReadFrom) that returns without an error has consumed exactly Remaining Length bytes from its reader, and none ever reads past that many, so the next packet starts where this one ends. The properties end exactly where the property length says, and a packet whose properties or fields run over or fall short of the declared lengths is refused with an error.",
 ["inputs"],"all byte sequences and all combinations of declared remaining length, property length and string lengths, including inconsistent ones",
 notest+"no decoder is run; inconsistent nested lengths are the inputs a test author does not write.",
 DEC,[("io.LimitedReader bounded by the remaining length; remaining property bytes counter",f) for f in DEC[:7]])
p("C05","A short or failed read is never decoded as data",
 "When the stream ends or fails in the middle of a packet, whatever decoder is active returns a non-nil error; a value of which only a part was received is never returned as decoded. This holds however the transport splits the bytes over its reads, including reads that deliver fewer bytes than asked for without an error.",
 ["inputs","fault_sequences"],"every position at which the stream can end, fail or deliver a partial read, for every decoder",
 notest+"a test on an in-memory reader never sees a short read, and truncation has one case for each byte position.",
 DEC+["mqtt/packets/primitives/io.go","mqtt/packets/primitives/string.go","mqtt/packets/primitives/varint.go","mqtt/packets/primitives/uint16.go","mqtt/packets/primitives/uint32.go","mqtt/packets/primitives/byte.go"],
 [("io.ReadFull / binary.Read for each value","mqtt/packets/primitives/io.go"),("error check after each read","mqtt/packets/*.go ReadFrom")])
p("C06","No bytes from the server can crash the client",
 "Whatever bytes a server sends, handling them (while connecting, polling, decoding, routing publishes to topics, or completing subscribe and unsubscribe calls) never panics: no index or slice expression out of range, no failed type assertion, no write to a nil map, no send on or second close of a closed channel, no division by zero and no explicit panic.",
 ["inputs"],"all byte sequences from the server, including malformed packets and acknowledgements that answer the wrong request",
 notest+"the test feeds it well-formed topics and filters; a panic needs one particular malformed length, count or type.",
 DEC+CL,[("bounds and type checks in front of index expressions and assertions","mqtt/client.go"),("decoders","mqtt/packets/*.go")])
p("C07","Failures of I/O and encoding are reported to the caller",
 "If writing any part of a packet fails, the packet's WriteTo returns a non-nil error. If encoding, writing, reading, setting the I/O deadline, or a storage operation other than one reporting that a record is already there or already gone fails during a client API call, that call returns a non-nil error; the one exception is that polling returns nil when the read of a first byte times out.",
 ["inputs","fault_sequences"],"every single failing operation at every call site of every client API method and encoder",
 notest+"no I/O or storage failure is ever produced.",
 ENC+CL,[("if err = ...; err != nil { return }","mqtt/client.go, mqtt/packets/*.go")])
p("C08","Variable byte integers follow MQTT 5 in both directions",
 "Encoding a variable byte integer produces the base-128 little-endian representation in the fewest bytes (1 to 4) for every value up to 268,435,455, and an error with nothing written for any greater value; the reported encoded length is that number of bytes. Decoding reads at most 4 bytes, stops after the first byte without the continuation bit, returns the value those bytes represent, and returns an error if the fourth byte has the continuation bit set.",
 ["inputs"],"all 2^32 values when encoding, all byte sequences when decoding",
 notest+"variable byte integers are not tested; the boundaries are at 7, 14, 21 and 28 bits.",
 ["mqtt/packets/primitives/varint.go"],[("VariableByteInt.WriteTo / ReadFrom / Length","mqtt/packets/primitives/varint.go")])
p("C09","What cannot be represented is refused, not truncated",
 "A string or binary field of more than 65,535 bytes that the packet would carry, a publish payload of more than 268,435,455 bytes, a will or publish QoS above 2, a publish with neither topic nor topic alias, and a subscribe or unsubscribe without topics makes the encoder return an error. No length prefix is ever written that is a truncation of the real length. A packet within these limits, and of a size that a remaining length can tell, is never refused for what its fields hold.",
 ["inputs"],"all field values and sizes of all packet types",
 notest+"no test encodes anything, let alone values of 64 KiB or 256 MiB.",
 ENC,[("range checks at the start of WriteTo","mqtt/packets/primitives/string.go, mqtt/packets/publish.go, mqtt/packets/connect.go, mqtt/packets/subscribe.go, mqtt/packets/unsubscribe.go")])
p("C10","Flag bits are placed and read as MQTT 5 defines",
 "The fixed header accessors, the PUBLISH flags in both directions (retain bit 0, QoS bits 1-2, duplicate bit 3), the CONNECT flags (clean start 1, will 2, will QoS 3-4, will retain 5, password 6, user name 7), the CONNACK session-present bit and the subscription options set by the topic setters (QoS 0-1, no local 2, retain as published 3, retain handling 4-5) each put or take exactly their own bits and leave all others unchanged. No Local is never left set when a shared subscription filter is set or No Local is requested for one.",
 ["inputs"],"all values of the flag fields and all previous values of the option byte, in any order of setter calls",
 notest+"no flag is ever encoded or decoded by a test.",
 ["mqtt/packets/packet.go","mqtt/packets/publish.go","mqtt/packets/connect.go","mqtt/packets/connack.go","mqtt/packets/topic.go"],
 [("bit operations",f) for f in ["mqtt/packets/packet.go","mqtt/packets/publish.go","mqtt/packets/connect.go","mqtt/packets/topic.go"]])
p("C11","No API call leaves a lock held or locks itself out",
 "Every exported method of the client returns with every client lock released, whichever way it returns, and never unlocks a lock it does not hold. No method acquires a lock that its own call chain already holds.",
 ["inputs","fault_sequences"],"every return path of every exported client method, including all error returns",
 notest+"the error returns of the network and storage calls, on which a lock would be left held, are never taken.",
 CL,[("connMutex, mutex, eventMutex with deferred and explicit unlocks","mqtt/client.go")],
 [("connMutex","serialises use of the network connection","mqtt/client.go"),("mutex","client state","mqtt/client.go"),("eventMutex","event channels","mqtt/client.go")])
p("C12","Concurrent API calls cannot deadlock on the client's locks",
 "All exported client methods acquire the client's locks in one acyclic order. While it waits for the network or for another goroutine (network read or write, a channel operation that can block, waiting for an acknowledgement or for quota), no method holds a lock that protects client state or event channels, and while it waits for another goroutine it does not hold the connection lock either.",
 ["schedules"],"all interleavings of concurrent calls to the exported methods",
 notest+"there is no concurrent test, and a lock-order deadlock needs one particular interleaving.",
 CL,[("lock order connMutex, mutex, eventMutex; unlock before waiting","mqtt/client.go")])
p("C13","Client state is free of data races",
 "Exported client methods may be called concurrently: for any two of them (or one twice), any two accesses to the same client state, including the contents of its maps, of which one is a write, are ordered by a common lock.",
 ["schedules"],"all pairs of accesses to client fields reachable from any two exported methods",
 notest+"nothing runs concurrently, so the race detector has nothing to see.",
 CL,[("mutexes guarding the fields of Client","mqtt/client.go")])
p("C14","Packets are written to the connection whole and one at a time",
 "Everything the client writes to the network connection is complete control packets, each encoded completely before its first byte is written and handed to the connection in one write, while holding the connection lock, so packets of concurrent calls never interleave. After a write that failed part-way nothing more is written to that connection: the client closes it.",
 ["schedules","fault_sequences"],"all interleavings of API calls and all points at which an encoding or a write can fail",
 notest+"no test writes to a connection.",
 CL,[("send encodes into a buffer; connMutex","mqtt/client.go")])
p("C15","Packets are sent only in the connected state",
 "CONNECT is only sent while the client is not connected, and every other packet is only sent while the client is connected, where the state is checked while holding the connection lock under which the packet is then sent. A call on a client that is not connected returns an error and sends nothing.",
 ["schedules","histories"],"all sequences and interleavings of API calls, disconnects and connection failures",
 notest+"no test connects; the check-then-send window shows only when another call disconnects in between.",
 CL,[("IsConnected check after connMutex.Lock","mqtt/client.go")])
p("C16","The connected state ends when the connection does",
 "The client enters the connected state only after receiving a CONNACK with a reason code below 0x80, and leaves it, closing the network connection and waking every call that waits for an acknowledgement or quota, when it has sent or received a DISCONNECT, when a read or decode fails in the middle of the stream (or the deadline for the rest of a packet cannot be set), when the server sends a packet type it may not send, when more publishes than the receive maximum arrive, when the ping response is overdue, and when the handshake fails after CONNECT was sent. A first-byte read that only timed out changes nothing.",
 ["histories","fault_sequences"],"all histories of packets and failures",
 notest+"no test reads from a connection.",
 CL,[("closeConn, receive","mqtt/client.go")],[("isConnected","connected state","mqtt/client.go")])
p("C17","Every inbound packet gets exactly the reply MQTT 5 requires",
 "Handling an incoming packet sends exactly one PUBACK for a QoS 1 PUBLISH, one PUBREC for a QoS 2 PUBLISH, one PUBREL for a PUBREC with reason code below 0x80, and one PUBCOMP for a PUBREL, each with the packet identifier of the packet it answers. Nothing is sent for any other packet, except DISCONNECT with reason 0x93 for a publish beyond the receive maximum. A record that storage has already, or has no more, does not keep a packet from being answered.",
 ["inputs","histories"],"all incoming packets with all field values",
 notest+"no test receives a packet.",
 CL,[("Poll's switch over packet types, sendPuback, sendPubrec","mqtt/client.go")])
p("C18","The send quota is conserved",
 "Each PUBLISH with QoS above 0 is preceded by taking exactly one unit of a send quota that is checked to be above zero in the same critical section, a call to Publish that returns an error gives exactly one unit back if it had taken one, and exactly one unit is returned for each received PUBACK, PUBCOMP and PUBREC with reason code 0x80 or above, never beyond the server's receive maximum. Nothing else changes the quota; QoS 0 publishes do not touch it; a connect sets it to the server's receive maximum, 65,535 if the server gave none.",
 ["histories","schedules","fault_sequences"],"all sequences of publishes, acknowledgements and failures, and all interleavings of concurrent publishers",
 notest+"a lost or doubled unit shows only after up to 65,535 messages or a particular failure.",
 CL,[("acquireSendQuota, releaseSendQuota","mqtt/client.go")],[("sendQuota","publishes that may still be sent","mqtt/client.go")])
p("C19","The receive quota is conserved",
 "Each received PUBLISH with QoS above 0 that is not a duplicate of an unreleased QoS 2 message takes exactly one unit of receive quota if there is one and otherwise leads to a DISCONNECT with reason 0x93; QoS 0 publishes are always accepted. The unit is returned exactly once: when the PUBACK was sent for QoS 1, and when the PUBCOMP was sent for the QoS 2 message that the PUBREL releases; a PUBREL for an unknown message returns nothing, and nothing takes the quota beyond the receive maximum. A connect sets the quota to the receive maximum of the CONNECT packet, 65,535 if it has none.",
 ["histories"],"all sequences of incoming publishes and releases",
 notest+"no test receives a packet; a lost unit shows only after as many messages as the receive maximum.",
 CL,[("Poll, sendPuback","mqtt/client.go")],[("receiveQuota","publishes that may still be received","mqtt/client.go")])
p("C20","Messages are persisted before and until their exchange allows",
 "When storage is set, a PUBLISH with QoS above 0 is stored under its packet identifier before it is written, the record of a QoS 2 message is stored before its PUBREC is sent, and a received PUBREC with reason code below 0x80 replaces the publish's record before PUBREL is sent. Records are dropped only for the packet identifier of, and only after receiving, the PUBACK, PUBREC, PUBREL or PUBCOMP that ends their need, and they are always dropped then; QoS 0 and QoS 1 messages received leave no record, and a storage failure prevents the packet from being sent.",
 ["crash_points","histories","fault_sequences"],"every point between storage operations and network writes, all storage failures",
 notest+"no test uses a storage together with a client.",
 CL,[("Publish, Poll, drop","mqtt/client.go"),("Storage interface","mqtt/storage/storage.go")])
p("C21","Packet identifiers in use are never zero and never reused",
 "Every PUBLISH with QoS above 0, SUBSCRIBE and UNSUBSCRIBE that is sent carries a non-zero packet identifier that was checked, in the same critical section in which it is marked in use, not to be in use. It stays in use until the call fails to send it, or its PUBACK, PUBCOMP, SUBACK, UNSUBACK or a PUBREC with reason code 0x80 or above arrives. A call fails for the lack of an identifier only after it has looked at every one.",
 ["histories","schedules"],"all random sequences, histories of outstanding exchanges and concurrent calls",
 notest+"a collision of random 16-bit identifiers needs many outstanding packets or a chosen generator.",
 CL,[("nextPacketIdentifier, inflight","mqtt/client.go")],[("inflight","packet identifiers in use","mqtt/client.go")])
p("C22","Subscribe and unsubscribe complete, with the server's verdict",
 "Subscribe and Unsubscribe wait for the acknowledgement with their own packet identifier, the context, or the end of the connection, whichever comes first, and return a non-nil error unless an acknowledgement of the right type arrived with one reason code for each topic, all of them below 0x80. The wait is registered before the packet is sent and removed on every return, and an acknowledgement that nobody waits for, or a second one, is ignored without blocking.",
 ["histories","schedules","fault_sequences"],"all interleavings of acknowledgements, cancellations, disconnects and concurrent calls",
 notest+"no test subscribes; a lost wake-up or a leaked registration needs a particular interleaving.",
 CL,[("responseChan, respond, waitResponse","mqtt/client.go")])
p("C23","Events are delivered once and never block or hit a closed channel",
 "Every successfully handled incoming packet of a type other than PINGRESP, except a duplicate QoS 2 PUBLISH, is signalled with its own packet type and decoded packet on the general event channels, as are a sent DISCONNECT and the CONNACK; a PUBLISH is additionally signalled on a topic-bound channel only if the topic matches that channel's filter. Delivery never blocks on a full channel, an event channel is closed at most once and never sent to after it is closed, and subscribing with a channel that is closed or unknown does not bind it.",
 ["schedules","histories"],"all interleavings of polling, subscribing and closing of event channels, and all incoming packets",
 notest+"no test creates an event channel.",
 CL+["mqtt/events.go"],[("signal, closeEventChannelInternal, openChans","mqtt/client.go")])
p("C24","Connecting negotiates the parameters MQTT 5 defines",
 "Connect sends CONNECT first and then accepts nothing but a CONNACK; a CONNACK with reason code 0x80 or above is returned as that reason code, and nil is returned only after a CONNACK below 0x80 was decoded. The keep-alive interval becomes the server's value if the CONNACK has one and otherwise the CONNECT packet's, which may be zero, so nothing of an earlier connection stays, and the session expiry interval of the CONNECT packet decides whether a later DISCONNECT may carry one.",
 ["inputs","histories"],"all CONNACK contents and all CONNECT parameters",
 notest+"no test connects.",
 CL,[("Connect","mqtt/client.go")])
p("C25","Keep-alive follows the negotiated interval",
 "KeepAlive sends exactly one PINGREQ. Polling reports a keep-alive timeout (0x8D) and closes the connection only if the keep-alive interval is above zero and the ping response deadline has passed; the deadline is set when the connection is made and extended by a PINGRESP, each time to the current time plus twice the interval, and by nothing else, and a PINGRESP with a body is refused.",
 ["histories","configurations"],"all keep-alive intervals including zero and all histories of pings",
 notest+"no test sends a ping.",
 CL,[("KeepAlive, Poll","mqtt/client.go")],[("pingRespDeadline","when the ping response is overdue","mqtt/client.go")])
p("C26","Every call sets its own I/O deadline before using the network",
 "Every client API call sets the deadline of the network connection before its first network read or write, to the deadline of its context if it has one and otherwise to none (for KeepAlive, to one and a half times the keep-alive interval from now, or none if that is zero), so a deadline of an earlier call never applies to a later one. The deadline of Poll's context ends with the arrival of the first byte of a packet: it does not apply to the rest of the packet nor to what is sent in reply. If setting a deadline fails, nothing is read or written.",
 ["inputs","histories"],"all contexts with and without deadline and all sequences of calls",
 notest+"no test uses a network connection.",
 CL,[("conn.SetDeadline at the start of each API call","mqtt/client.go")])
p("C27","The memory storage keeps its contract",
 "Store adds the record if and only if none with that identifier is present and otherwise returns the duplicate error and changes nothing; Get returns the record with exactly that identifier or the no-entry error and changes nothing; Drop removes exactly the record with that identifier or returns the no-entry error and changes nothing. All three hold the storage's lock over their whole access and release it on every return.",
 ["inputs","schedules"],"all identifiers and contents, all interleavings of concurrent calls",
 notest+"the memory storage has no test.",
 ["mqtt/storage/memory/memory.go","mqtt/storage/storage.go"],[("linear scan under mutex","mqtt/storage/memory/memory.go")])
p("C28","A QoS 2 message is delivered once per release",
 "While a QoS 2 message has been received and not yet released by PUBREL, further PUBLISH packets with QoS 2 and the same packet identifier are answered with PUBREC but neither delivered to any event channel, stored again, nor counted against the receive quota. After the PUBCOMP for it was sent, a PUBLISH with that identifier is a new message and is delivered. The same holds after Connect received a CONNACK that says that the session was not continued, which makes the client forget all unreleased messages; in a continued session they stay unreleased.",
 ["histories"],"all sequences of PUBLISH, PUBREL and connects",
 notest+"no test receives a packet.",
 CL,[("unreleased","mqtt/client.go")],[("unreleased","identifiers of received, unreleased QoS 2 messages","mqtt/client.go")])
# not applicable
p("C29","Topic filters match exactly as MQTT 5 defines",
 "A publish is routed to a topic-bound channel if and only if its topic matches the filter under the rules of MQTT 5 section 4.7: '+' matches one whole level, which may be empty, a final '#' matches the parent and any number of levels, neither matches a topic that starts with '$' at the first level, and all other characters match themselves only. This is for valid filters (not empty, '+' takes up a level and '#' the last one) and valid topics (not empty, without wildcards); shared subscriptions are not covered.",
 ["inputs"],"all valid topics and filters","The existing test samples some tens of pairs; the set is infinite.",
 CL,[("matchTopic","mqtt/client.go")])
p("C30","Decoding an encoded packet gives back its fields",
 "For every packet that MQTT 5 allows, of a type that can be both encoded and decoded (PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, DISCONNECT, AUTH and the fixed header), the decoder accepts what the encoder has written and gives back the same value for every field that the packet carries, flags included, and leaves the others zero (a map or slice that was empty may come back nil, and a packet identifier is not carried with QoS 0).",
 ["inputs"],"all packet values",notest+"no round trip is tested.",ENC,[("WriteTo / ReadFrom","mqtt/packets/*.go")])
p("C31","Unacknowledged messages are resent after reconnecting",
 "After reconnecting with a resumed session, the client resends the stored PUBLISH and PUBREL packets with their original packet identifiers.",
 ["crash_points","histories"],"all crash points of a QoS 1 or 2 exchange",notest+"nothing reconnects.",
 CL+["mqtt/storage/storage.go"],[("the storage has no operation to enumerate records and the client no resend","mqtt/storage/storage.go")])
p("C32","No wake-up of a blocked Publish is lost",
 "A Publish call waits for send quota only after it found, within one critical section since its last wait, that the client is connected and that the quota is zero. Whatever returns quota (PUBACK, PUBCOMP, a PUBREC with an error, a failed send, a new connection) or ends the connection leaves a wake-up that a waiter finds even if it starts to wait later, and a woken call that does not wait again passes the wake-up on to the next waiter unless it knows that it left no quota. So no call stays blocked while the connection has send quota or has ended.",
 ["schedules"],"all schedules of publishing, acknowledging and disconnecting goroutines, any number of waiters",notest+"there are no concurrent tests, and a lost wake-up shows only in particular interleavings.",CL,[("pendingSendSemaphore, acquireSendQuota","mqtt/client.go")],[("sendQuota","how many QoS 1 and 2 messages may be sent","mqtt/client.go")])
p("C33","Events and replies keep the order of arrival",
 "Packets are handled one at a time: every client call holds the connection lock without interruption from its first network read to the last network write and the last event it delivers for what it read, and leaves nothing of it to another goroutine. So however many goroutines poll, each event channel receives events, and the server receives acknowledgements, in the order in which the packets arrived.",
 ["schedules","histories"],"all arrival orders and concurrent pollers",notest+"no test receives a packet.",CL,[("Poll under connMutex","mqtt/client.go")])
p("C34","Pings are frequent enough to keep the connection alive",
 "If the application calls KeepAlive at the reported interval, the server never sees a gap of more than one and a half times the interval and the client never times out against a responsive server.",
 ["schedules","histories"],"all timings",notest+"no test sends a ping.",CL,[("KeepAlive, KeepAliveInterval","mqtt/client.go")])
p("C35","A waiting call ends with its context",
 "Wherever a client call can block on a channel, it also waits for the end of the context that its caller gave it. When that context ends, the call stops waiting, waits for nothing else and returns the context's error.",
 ["schedules","fault_sequences"],"all schedules, all points in time at which a context ends",notest+"no test cancels a context.",CL,[("acquireSendQuota, waitResponse","mqtt/client.go")])
p("C36","Encoding and client calls leave what they are given unchanged",
 "Encoding a packet (WriteTo, Length) changes nothing of the packet but its own fixed header: fields, payload, topics and user properties stay as they were, so the same packet can be encoded again and shared. A client call changes nothing that its caller gave to it, other than the fixed header of a packet it encodes and the PacketIdentifier of a packet given to Publish.",
 ["inputs","histories"],"all packets and arguments, all call graphs below WriteTo and the client's methods",notest+"no test looks at a packet after it was encoded.",ENC+CL,[("WriteTo","mqtt/packets/*.go"),("Publish, Subscribe","mqtt/client.go")])
p("C37","No mutable package-level state",
 "Clients, packets and storages share no mutable state by way of package-level variables: after package initialization no function of the library changes a package-level variable or memory reached from one without a package-level lock (or sync.Once), and nothing that was put back into a pool is used afterwards or kept by a caller. So two clients, and packets in different goroutines, do not disturb each other.",
 ["schedules","histories"],"all interleavings of all functions of the library on any number of clients and packets",notest+"no test uses two clients or runs anything concurrently.",ENC+DEC+CL,[("no package-level variable is assigned","mqtt/...")])
p("C38","Decoding allocates no more than the packet declares",
 "Whatever a server sends, no decoder allocates a slice of more than 65,535 elements unless that many bytes lie within the remaining length that the fixed header declares; a property length, count or string length alone cannot make it allocate more.",
 ["inputs"],"all byte sequences",notest+"no decoder is run.",DEC+["mqtt/packets/primitives/string.go"],[("make in ReadFrom","mqtt/packets/*.go")])
p("C39","Every loop ends",
 "No input makes an encoder, a decoder, the storage or a client call loop forever: every iteration of every loop takes at least one byte of the packet's remaining bytes, takes the next element of a collection, moves a bounded counter on, or waits for the network or another goroutine.",
 ["inputs","schedules"],"all loops, all ways through their bodies, all inputs",notest+"an endless loop needs the input for which the loop makes no progress.",ENC+DEC+CL,[("loops in WriteTo, ReadFrom, matchTopic","mqtt/...")])
p("C40","A Publish is a stream over its payload",
 "Publish.Read and Publish.Write transfer bytes between the buffer and the payload from the current position on, as many as both hold, return that number and move the position on by exactly as much; they change nothing else of the packet and panic for no payload, even if it was replaced. With nothing left at the call both return an error; Read returns no error otherwise, and Write returns one exactly if it took less than it was given. Reset goes back to the start, and nothing else moves the position.",
 ["inputs","histories"],"all payloads, buffers and sequences of reads, writes, resets and replaced payloads",notest+"no test reads a payload.",["mqtt/packets/publish.go"],[("Read, Write, Reset","mqtt/packets/publish.go")],[("offset","position in the payload","mqtt/packets/publish.go")])
p("C41","An acknowledged message is delivered",
 "When Poll has begun to send the PUBACK or PUBREC for a PUBLISH, or has recorded its packet identifier as received, then that call delivers the message to the event channels (unless it is a duplicate of an unreleased QoS 2 message), whatever fails: the server may consider the message delivered and not send it again, and would be answered as for a duplicate if it did.",
 ["fault_sequences","crash_points"],"all failures at every point between receiving a PUBLISH and returning from Poll",
 notest+"no test makes an acknowledgement fail.",CL,[("Poll, sendPuback, sendPubrec","mqtt/client.go")])
p("C42","Each packet is decoded once, as what its fixed header says",
 "A client call reads a packet as its first byte, its remaining length and then its contents, which are decoded exactly once by the decoder for the type in the first byte, with the flags and remaining length that were read. Nothing more is read after a packet or after a failed read, and a call that returns nil has left no part of a packet unread. So every packet begins where the one before it ends.",
 ["inputs","histories"],"all packet types and contents, all sequences of packets",
 notest+"no test receives a packet.",CL,[("Poll, Connect, receive","mqtt/client.go")])
p("C43","Requests carry what the application asked for",
 "Publish sends the packet it was given with nothing changed but the packet identifier; SUBSCRIBE carries exactly the given topics in the given order, each with its own filter and options, and UNSUBSCRIBE exactly the given filters in the given order; DISCONNECT has reason code 0x04 if the application asked for the will to be published and otherwise 0x00, and the session expiry interval that the application asked for if the CONNECT packet had one, and otherwise none.",
 ["inputs","histories"],"all arguments, any number of topics, all session expiry intervals",
 notest+"no test looks at what the client sends.",CL,[("Publish, Subscribe, Unsubscribe, DisconnectWithSessionExpiry","mqtt/client.go")])
p("C44","An event channel is open from its creation to its closing",
 "CreateEventChannel returns an event channel that has room for at least one event and for at least as many as asked for, that no other event channel shares its identity with, and that receives the client's general events from then on. CloseEventChannel closes it, unless it is closed already, and announces that on its Done channel, once, without blocking. When the server accepts a topic, Subscribe binds the topic's own event channel, if it is still open, to the topic's filter and stops general events from reaching it; when the server accepts the removal of a filter, Unsubscribe closes the event channel that is bound to it. Topics that the server refuses change nothing, and do not keep the accepted ones from being treated.",
 ["inputs","histories"],"any number of channels, any sizes, all mixtures of accepted and refused topics",
 notest+"no test subscribes or unsubscribes.",CL,[("CreateEventChannel, CloseEventChannel, Subscribe, Unsubscribe","mqtt/client.go")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
