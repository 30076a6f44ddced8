#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os
H, T, C, M, U, MA, E = ("src/handler.rs", "src/topic_heir.rs", "src/core/mod.rs", "src/packets/mod.rs",
                        "src/packets/utils.rs", "src/main.rs", "src/core/enums.rs")
def P(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mech],
                             observe_at=observe, hook_needed=hook))
props = [
P("C01", "Topic filters select exactly the messages MQTT 3.1.1 says they match",
  "A published message is delivered to a subscribed client if and only if at least one of that client's topic filters matches the topic under MQTT 3.1.1 section 4.7: levels compare byte for byte, '+' stands for exactly one level (also an empty one), a trailing '#' for the parent and any number of further levels, and a filter whose first level is a wildcard never matches a topic beginning with '$'. However many of its filters match, the client receives one copy.",
  ["inputs", "histories"],
  "every set of valid topic filters (any depth, empty levels, wildcards, '$' prefixes, Unicode; filters starting with the reserved '$share' level excluded) held by any number of clients, and every valid topic name",
  "The tree tests insert one or two hand-written filters and print the result; four of six assert nothing about what matched. No test combines literal, '+' and '#' siblings, empty levels or '$' topics.",
  [T, "src/utils.rs", C],
  [("recursive descent over literal, '+' and '#' children", T), ("de-duplication by client", T), ("level tokeniser", "src/utils.rs")],
  ["PUBLISH packets received by each subscriber"]),
P("C02", "The subscription set is exactly what the client's requests made it",
  "After any history of subscribe, re-subscribe and unsubscribe requests by any clients, each client's set of subscriptions is exactly the filters it was granted and has not since removed, each at the QoS granted last. Removing a filter (also one never subscribed) affects neither any other filter, related or not, nor any other client; a message published after the acknowledgement of a change sees that change.",
  ["histories"],
  "every sequence of SUBSCRIBE and UNSUBSCRIBE packets (several filters each, repeats and overlaps included) interleaved with publishes by any number of clients",
  "One test deletes one filter from a tree of one and asserts nothing about the tree. Pruning of emptied branches, shared prefixes, repeated filters and other clients' entries are never exercised.",
  [T, C, H],
  [("replace-on-insert by client", T), ("delete and branch pruning", T), ("App::subscribe / App::unsubscribe", C)],
  ["PUBLISH packets received after SUBACK / UNSUBACK"],
  [("children / subs", "filter trie and the clients attached to each node", T)]),
P("C03", "Message content arrives unchanged, at every size the protocol can carry",
  "Each delivered message carries the very topic and payload bytes of the publish it stems from: nothing is truncated, padded, re-encoded or mixed with other packets. This holds for every payload (empty and binary included) and topic, up to the largest packet the four-byte remaining-length field can express.",
  ["inputs"],
  "every topic (any valid UTF-8) and payload; packet sizes around 127/128, 16383/16384, 2097151/2097152 bytes and around any internal buffer size, alone or pipelined behind other packets",
  "Tests encode and decode one six-byte payload; none sends a packet through the connection handler, and none has a remaining length above 321.",
  [M, U, H],
  [("remaining-length encode/decode", U), ("PUBLISH unpack/pack", M), ("frame reader", H)],
  ["bytes a subscriber receives"]),
P("C04", "How the transport cuts the byte stream never matters",
  "A client's byte stream has the same effect however the transport splits or coalesces it: one byte at a time, several packets in one read, or a packet over many reads with pauses, the broker sends the same responses, delivers the same messages and keeps or closes the same connections.",
  ["inputs", "schedules"],
  "every byte stream of well-formed packets and every partition of it into reads, with any pauses below the keep-alive limit",
  "No test drives the connection handler; the decoder tests always present one complete packet.",
  [H, M],
  [("accumulation of complete frames before decoding", H), ("frame length computation", M)],
  ["responses, deliveries and connection state versus the unsegmented reference"]),
P("C05", "All broker output is a well-formed MQTT stream under any back-pressure",
  "The bytes a client receives always form a sequence of complete, well-formed server-to-client packets with nothing lost, repeated or interleaved, however few bytes each socket write accepts and however long the peer pauses before taking more.",
  ["inputs", "schedules", "fault_sequences"],
  "every sequence of short writes, zero windows and delays on the outgoing side, while responses and deliveries of any size are due",
  "No test has a writer at all; on an unloaded loopback socket a short write never happens.",
  [H, M],
  [("complete writes of each packet", H), ("packet encoder", M)],
  ["raw bytes received, parsed by an independent strict decoder"]),
P("C06", "Each message is delivered exactly once, in publishing order, under concurrency",
  "While any number of clients publish concurrently, every connected client whose subscription matched throughout receives each message exactly once, and receives the messages of any one publisher in the order that publisher sent them.",
  ["schedules", "histories"],
  "every interleaving of concurrent publishers and subscribers, including clients receiving their own messages, and bursts pipelined in one write",
  "The publish path from handler to broker to subscribers has no test; the order depends on task scheduling.",
  [H, C, MA, E],
  [("single command queue into the broker task", MA), ("per-client FIFO queue", H), ("App::publish", C)],
  ["sequence of PUBLISH packets at each subscriber"]),
P("C07", "Deliveries carry the right QoS, a valid packet identifier and clean flags",
  "A message is delivered at the lower of the QoS it was published with and the highest QoS granted to any of the client's matching subscriptions. A delivery above QoS 0 carries a non-zero packet identifier that no other delivery still unacknowledged on that connection uses, a QoS 0 delivery carries none; DUP and RETAIN are 0.",
  ["inputs", "histories"],
  "every combination of publish QoS and overlapping granted QoS, publish flags, and every history of acknowledged and unacknowledged deliveries",
  "Tests encode a QoS 1 publish with a hand-picked identifier; what identifier and QoS the broker chooses when it forwards is untested.",
  [C, T, H, M],
  [("effective QoS at fan-out", C), ("highest QoS over matching filters", T), ("identifier allocation", H)],
  ["fixed header and packet identifier of each delivered PUBLISH"]),
P("C08", "Every request gets exactly its own acknowledgement",
  "Each accepted request is answered exactly once, with the response type the protocol assigns and the request's own packet identifier, responses of one type in request order, and nothing unsolicited: SUBSCRIBE by a SUBACK with one return code per filter in order (the granted QoS, or 0x80 for a filter that is not valid), UNSUBSCRIBE by UNSUBACK, QoS 1 PUBLISH by PUBACK, QoS 2 PUBLISH by PUBREC, PUBREL by PUBCOMP, PUBREC by PUBREL, PINGREQ by PINGRESP. QoS 0 PUBLISH, PUBACK and PUBCOMP get no answer.",
  ["inputs", "histories"],
  "every sequence of client requests, pipelined or not, with every packet identifier and any number of filters, valid and invalid mixed",
  "Tests only check that a PUBACK and CONNACK can be encoded; nothing relates a response to a request.",
  [H, C, M, "src/packets/enums.rs"],
  [("request dispatch", H), ("SUBACK codes in filter order", C), ("response constructors", M)],
  ["packets each client receives in response"]),
P("C09", "A QoS 2 message is passed on exactly once despite retransmission",
  "A QoS 2 PUBLISH repeated on the same connection with the same packet identifier before its PUBREL is acknowledged again but delivered to subscribers only once; after the PUBREL/PUBCOMP exchange the identifier denotes a new message. Other identifiers, other clients and QoS 1 messages with the same number are not affected.",
  ["histories"],
  "every interleaving of first transmissions, retransmissions and releases over any set of packet identifiers and clients",
  "No test runs a QoS 2 exchange; the property is about histories of at least three packets.",
  [H],
  [("record of received, unreleased identifiers", H)],
  ["PUBLISH packets at subscribers; PUBREC/PUBCOMP at the sender"]),
P("C10", "Arbitrary bytes are handled or rejected cleanly and hurt nobody else",
  "Whatever bytes a client sends, the broker neither crashes nor panics nor hangs: it acts on the well-formed packets before the first malformed one exactly as the protocol says, takes no action on the malformed one or anything after it, and closes that connection. Other clients' connections, subscriptions and messages are unaffected, and a failed accept does not stop the broker.",
  ["inputs", "fault_sequences"],
  "every byte string: random bytes, mutations of valid packets (flipped bits, wrong lengths, truncations, splices), before and after CONNECT",
  "Decoder tests use valid packets and one short u16; arithmetic on attacker-controlled lengths and malformed strings is never exercised.",
  [M, U, H, "src/packets/headers/fixed_header.rs"],
  [("bounds-checked decoding", M), ("length-checked strings", U), ("per-connection task isolation", MA)],
  ["panics, connection state, deliveries and responses versus an independent reference decoder"]),
P("C11", "Nothing happens before a valid CONNECT, and CONNECT is answered as specified",
  "The first packet on a connection must be a valid CONNECT; anything else closes the connection without any effect on subscriptions or messages. A valid CONNECT (with any client identifier, will, user name, binary will payload or password) is answered first of all by CONNACK with return code 0 and session-present 0; an unsupported protocol level by code 1 and a missing client identifier without clean session by code 2, then the connection is closed. A second CONNECT closes the connection.",
  ["inputs", "histories"],
  "every CONNECT field combination and flag byte, valid and invalid, and every packet sent in place of, before, pipelined behind or after CONNECT",
  "One valid CONNECT is decoded in a test; refusals, ordering and binary fields are not tested, and no test reaches the handler's state.",
  [H, M, "src/packets/headers/connect.rs", "src/packets/headers/connack.rs"],
  [("connected flag in the handler", H), ("CONNECT decoding and validation", M)],
  ["CONNACK code, connection state, absence of effects"]),
P("C12", "Protocol violations close the connection and have no effect",
  "A connected client that sends a packet MQTT 3.1.1 forbids is disconnected and the packet has no effect: reserved or server-only packet types, wrong fixed-header flags, QoS 3, packet identifier 0 where one is required, an empty filter list, an invalid requested QoS, a second CONNECT, a topic name that is empty or contains wildcards or U+0000, invalid UTF-8, and packets longer or shorter than their contents. Effects of earlier packets stand.",
  ["inputs", "histories"],
  "every listed violation, in every parameter variation, after any valid history and followed by any further packets",
  "No test sends an invalid SUBSCRIBE, UNSUBSCRIBE, PUBLISH or acknowledgement.",
  [M, H, U, "src/packets/enums.rs", "src/packets/headers/fixed_header.rs"],
  [("packet type and flag validation", M), ("QoS conversion", "src/packets/enums.rs"), ("rejection of server-only packets", H)],
  ["connection state; deliveries that must not happen"]),
P("C13", "One live connection per client identifier; every new session starts clean",
  "When a client connects with an identifier already in use, the older connection is closed and the newer one works in full; whatever the older connection still does, or in which order its end is noticed, never disturbs the newer one. A connection accepted with session-present 0 starts without subscriptions, however the previous one ended, and subscriptions made on it deliver on it. Clients without an identifier are all distinct.",
  ["histories", "schedules"],
  "every history of connects, take-overs, DISCONNECT, end of stream and reset over a shared pool of client identifiers, including the end of the old connection racing the new CONNECT",
  "Session handling in core has an empty test module.",
  [C, H, "src/core/session.rs", T],
  [("session table", C), ("take-over notification", C), ("removal of a finished session's subscriptions", C)],
  ["which connections are open; deliveries on the newest connection"],
  [("sessions", "client identifier to live connection", C)]),
P("C14", "Keep-alive: idle clients are dropped in time, active ones never",
  "A client with keep-alive K > 0 that sends at least one packet of any kind in every K seconds is never disconnected for inactivity; one that stays silent is disconnected by 1.5 K (plus one second). Keep-alive 0 disables the check, traffic from the broker does not count, and a connection that never sends CONNECT is closed after a bounded time.",
  ["histories", "schedules"],
  "every keep-alive value and every timing of every packet type around the limits, for several clients at once",
  "Nothing in the suite advances time.",
  [H],
  [("keep-alive timer and its reset", H)],
  ["virtual time at which each connection is closed"]),
P("C15", "A slow or stuck client never stops the others",
  "The broker always makes progress: a client that stops reading, reads slowly, or floods the broker (also with messages to itself) delays only itself. Requests and messages among the other clients complete, the slow client receives everything due once it resumes (within the documented queuing limit), and no history of requests can bring the broker to a standstill.",
  ["schedules", "histories", "fault_sequences"],
  "every pattern of stalled, slow and bursting clients; numbers of queued messages well beyond any internal channel capacity",
  "The deadlock needs more than a hundred queued messages and a particular interleaving of two bounded channels; tests never start two tasks.",
  [C, H, MA],
  [("non-blocking hand-over from broker task to client queue", C), ("bounded channels", H)],
  ["completion of other clients' requests at quiescence of the simulated schedule"]),
P("C16", "A connection's end is noticed and cleaned up",
  "When a client disconnects, closes its stream, or its connection breaks, the broker promptly closes its side without spinning on the dead stream. Everything the client had sent in full before is still processed and delivered to others; nothing is delivered to it afterwards, and its end is invisible to the other clients.",
  ["histories", "fault_sequences", "crash_points"],
  "every way a connection can end (DISCONNECT, end of stream, reset, broken write) at every point of any history, mid-packet included",
  "No test closes a connection.",
  [H, C],
  [("end-of-stream handling", H), ("DISCONNECT handling", H), ("session removal", C)],
  ["socket closed by the broker, reads after end of stream, deliveries to the remaining clients"]),
P("C17", "The broker keeps nothing for clients and subscriptions that are gone",
  "Memory held by the broker depends on the connected clients and their current subscriptions only: repeating any history that returns to the same state (connects, subscriptions, messages, unsubscribes, disconnects of any kind) does not make it grow without bound.",
  ["histories"],
  "every history that ends where it began, repeated any number of times",
  "Growth is invisible to example tests, which never repeat anything.",
  [T, C, H],
  [("pruning of empty branches", T), ("session and subscription removal", C)],
  ["live heap bytes after n and 2n repetitions"]),
P("C18", "An interrupt stops the broker cleanly from every state",
  "On an interrupt signal the broker closes every connection and terminates successfully, whatever its clients are doing: idle, mid-packet, mid-handshake, flooding, or not reading. No client receives a corrupted packet because of it.",
  ["crash_points", "schedules"],
  "an interrupt at every point of every history",
  "main() is never run by a test.",
  [MA, H],
  [("cancellation token and task tracker", MA), ("cancellation branch of the handler", H)],
  ["termination result; connection state"]),
P("C19", "Packet encoding and decoding are inverse",
  "For every well-formed MQTT 3.1.1 packet, of any type and size, decoding it and encoding the result gives back the same bytes, and decoding consumes exactly that packet whatever follows it in the buffer. Decoding any other byte string returns an error or asks for more, and never panics.",
  ["inputs"],
  "every well-formed packet of all fourteen types with every field value, every trailing data, and every byte string",
  "Tests decode and encode a handful of fixed packets; eight of fourteen types never round-trip, and no length needs three or four bytes.",
  [M, U, "src/packets/headers/fixed_header.rs", "src/packets/headers/connect.rs", "src/packets/enums.rs"],
  [("Packet::pack / Packet::unpack", M)],
  ["bytes out versus bytes in"],
  hook="decode-and-re-encode entry point (cfg(verif))"),
P("C20", "Extreme but legal packets never bring the broker down",
  "No single client can crash the broker or make other clients' service fail by the size or shape of what it sends within protocol limits: topic filters and topics with tens of thousands of levels, SUBSCRIBE and UNSUBSCRIBE packets with thousands of filters, maximum-length strings. Each such filter is either granted, and then works, or refused with 0x80.",
  ["inputs"],
  "every legal filter, topic and list size up to the 65535-byte string and multi-megabyte packet limits",
  "The deepest filter in the tests has three levels; stack use grows with depth.",
  [T, H, M, "src/utils.rs"],
  [("recursive trie operations and their depth bound", T)],
  ["process survival; service to other clients"]),
]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
