#!/usr/bin/env python3
"""Writes properties.jsonl. Run by hand when a property changes; the output is committed."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

LND = "the lnd stub under boltnd (SendCustomMessage / custom message stream)"
RPC = "the gRPC service methods (SendOnionMessage, SubscribeOnionPayload, GenerateBlindedRoute, DecodeOffer)"

prop("C01", "Delivered payloads are authentic, complete and correctly attributed",
 "Whatever a subscriber receives was carried byte for byte, under the type it subscribed to, in the final-hop payload of an intact onion message addressed to this node, together with exactly the reply path of that message (or none if it had none). Messages that are corrupted, malformed, addressed to or relayed for another node, or not onion messages at all never cause a delivery. A message carrying several payloads delivers each one to the subscriber of its own type only.",
 ["inputs", "schedules", "histories", "fault_sequences"],
 "every message a peer can put on the wire, every interleaving of messages with subscriptions starting and ending, every set of payload types, sizes and reply paths",
 "unit tests feed a handful of fixed payloads through mocked processing functions, one at a time, with one handler; nothing checks contents end to end across many concurrent messages, types and hostile bytes",
 ["onionmsg/messenger.go", "rpcserver/impl_subscribe_onion_payload.go", "rpcserver/common.go", "lnwire/onion_msg_payload.go", "lnwire/onion_message.go"],
 [("handleOnionMessage final-hop dispatch", "onionmsg/messenger.go"), ("DecodeOnionMessagePayload", "lnwire/onion_msg_payload.go"), ("subscription handler and composeReplyPath", "rpcserver")],
 [("onionMsgHandlers", "one handler per final payload type", "onionmsg/messenger.go")],
 ["stream Send calls of SubscribeOnionPayload", LND])

prop("C02", "An onion message takes effect at most once per node run",
 "Between a node's start and stop, a given onion packet is acted on at most once: however many copies arrive, from whichever peers, back to back or much later, and even if the copies carry different trailing bytes, it causes at most one delivery per payload and at most one forwarded message. Distinct messages are never mistaken for copies of one another.",
 ["histories", "schedules", "fault_sequences", "inputs"],
 "every sequence of arrivals containing duplicates, replays through other peers and replays interleaved with faults and registrations",
 "no test sends the same onion twice through the running messenger",
 ["onionmsg/messenger.go"],
 [("sphinx router with in-memory replay log", "onionmsg/messenger.go NewOnionMessenger"), ("processOnion", "onionmsg/messenger.go")],
 [("router replay log", "shared-secret hashes already seen", "onionmsg/messenger.go")],
 ["stream Send calls", LND])

prop("C03", "Without faults an accepted message reaches its subscriber exactly once",
 "When lnd and the peers work, a SendOnionMessage that returns OK to a running node with an active subscription is received by that subscriber exactly once, within bounded time, with the payloads (including empty ones) and reply path that were sent. This holds for direct connections, multi-hop paths and blinded destinations, including when the sender is next to or is routed to the introduction node, and for replies sent along a received reply path.",
 ["schedules", "inputs", "configurations", "histories"],
 "all topologies, destination kinds, payload sets, reply paths and interleavings of concurrent senders, relays and subscribers",
 "the end-to-end tests need a real lnd (itest) and use two or three fixed messages; unit tests mock the other half of every exchange",
 ["onionmsg/messenger.go", "routes/blinded.go", "lnwire/onion_msg_payload.go", "rpcserver/impl_sendonionmessage.go", "rpcserver/impl_subscribe_onion_payload.go"],
 [("SendMessage path selection", "onionmsg/messenger.go"), ("CreateBlindedRoute / directToBlinded / blindedToSphinx", "routes/blinded.go"), ("event loop delivery", "onionmsg/messenger.go")],
 (), [RPC, LND])

prop("C04", "A relayed message goes to exactly the named next node, correctly peeled",
 "For each intact message that this node is to relay, it hands lnd exactly one onion message, for exactly the next node named in its encrypted data, containing the onion peeled by one layer and the correct next blinding point (the override if one was given); nothing is delivered locally, and lnd merely taking seconds to accept it does not cost the message. If the message names no next node, its encrypted data cannot be decrypted or parsed, or it carries final-hop payloads, nothing is forwarded.",
 ["inputs", "schedules", "histories", "fault_sequences"],
 "every relayed message, in any mix with other traffic, with and without overrides, under failing or slow lnd calls",
 "unit tests cover one forward with mocks; the bytes handed to the next hop are not checked against an independent peel under concurrency and faults",
 ["onionmsg/messenger.go", "onionmsg/onion.go", "lnwire/route_blinding.go", "lnwire/onion_message.go"],
 [("forwardMessage", "onionmsg/messenger.go"), ("decryptBlobFunc", "onionmsg/onion.go")],
 (), [LND])

prop("C05", "Hostile messages and failing lnd calls never stop message processing",
 "No message a peer can send, and no request an RPC client can make, crashes the node, wedges it or makes it request a shutdown; nor does any error or timeout lnd returns while individual messages are handled. Messages that arrive afterwards are still processed and RPCs are still served.",
 ["inputs", "fault_sequences", "histories", "schedules"],
 "all byte strings and well-encrypted but nonsensical onions, all RPC requests, all sequences of lnd call failures, at any point",
 "tests try about a dozen malformed messages through a function with mocked steps and never look at what happens afterwards",
 ["onionmsg/messenger.go", "onionmsg/onion.go", "lnwire/onion_msg_payload.go", "routes/blinded.go", "rpcserver/common.go", "rpcserver/impl_sendonionmessage.go"],
 [("errors are logged, not returned, in manageOnionMessages", "onionmsg/messenger.go"), ("request validation", "rpcserver")],
 (), [RPC, LND, "the shutdown callback"])

prop("C06", "At most one subscription per payload type, and types are reusable",
 "At any moment a payload type has at most one active subscription: a further one is refused (Unavailable) while another is active and is accepted once the previous one has returned, as if all subscribe and unsubscribe steps happened one at a time in some order. Refused, invalid or ended subscriptions never disturb the active ones, and reserved types (below 64) are always refused as invalid.",
 ["schedules", "histories"],
 "all interleavings of concurrent subscribe, cancel, failure and shutdown over the same and different types",
 "tests register and deregister sequentially, one call at a time",
 ["onionmsg/messenger.go", "rpcserver/impl_subscribe_onion_payload.go"],
 [("registration requests served by the event loop", "onionmsg/messenger.go handleRegistration/registerHandler"), ("deferred deregistration", "rpcserver/impl_subscribe_onion_payload.go")],
 [("onionMsgHandlers", "type to handler map owned by the event loop", "onionmsg/messenger.go")],
 [RPC])

prop("C07", "Subscriptions end promptly and cleanly, whatever ends them",
 "A subscription returns within bounded time once its client cancels, a stream send fails, or the server stops (with Canceled, the send's own error, and Aborted respectively), even if messages for it are pending at that moment. After it has returned nothing is sent on its stream, its type is free, and no other subscription, send or message is held up by it.",
 ["schedules", "fault_sequences", "histories"],
 "every instant at which a cancel, send failure or stop can fall relative to arriving messages and other subscriptions",
 "tests end a subscription only while it is idle, with a mocked messenger",
 ["rpcserver/impl_subscribe_onion_payload.go", "onionmsg/messenger.go"],
 [("handler select on context and quit", "rpcserver/impl_subscribe_onion_payload.go"), ("DeregisterHandler", "onionmsg/messenger.go")],
 (), [RPC])

prop("C08", "Stop always completes and leaves nothing running",
 "Stop called at any moment (during start, during message handling, with calls pending) returns within bounded time without a panic. Once it has returned no background goroutine of the instance is left, no further message is taken from lnd or forwarded, start-up that was still in progress gives up without waiting or trying any further (closing a connection to lnd that it had just made), the connection to lnd is closed, and every pending RPC of the instance, including ones still waiting for it to become ready, returns within bounded time. Payloads already handed to a subscription may still reach its client.",
 ["schedules", "crash_points", "fault_sequences"],
 "every point of the execution at which Stop can be called, including concurrently with Start and with lnd calls in flight or stalled",
 "tests stop an idle server once at the end of each test",
 ["boltnd.go", "rpcserver/server.go", "onionmsg/messenger.go", "rpcserver/impl_subscribe_onion_payload.go"],
 [("quit channels and wait group", "onionmsg/messenger.go"), ("Server.Stop", "rpcserver/server.go"), ("Boltnd.Stop", "boltnd.go")],
 [("started/stopped flags", "atomics on Boltnd, Server, Messenger", "boltnd.go, rpcserver/server.go, onionmsg/messenger.go")],
 ["live simulated tasks tagged with the instance", RPC, LND])

prop("C09", "RPCs wait for readiness; start and stop each take effect once",
 "An RPC that arrives before the server is ready waits and is then served normally; if its context ends first it fails with Unavailable, having done nothing. However many Start and Stop calls are made, concurrently or in sequence, at most one Start and one Stop take effect and the others return an error without changing anything.",
 ["schedules", "histories"],
 "every interleaving of RPCs, Start and Stop calls and slow or failing start-up steps",
 "tests call Start before any RPC and never race two calls",
 ["rpcserver/server.go", "boltnd.go", "onionmsg/messenger.go"],
 [("ready channel", "rpcserver/server.go waitForReady"), ("compare-and-swap on started/stopped", "boltnd.go, rpcserver/server.go, onionmsg/messenger.go")],
 (), [RPC])

prop("C10", "Losing lnd's message stream requests shutdown exactly once",
 "If lnd's message stream cannot be opened, fails, or ends while the node runs, the node calls the shutdown callback exactly once within bounded time (and tolerates none being configured), and Stop still completes. The callback is never called on an orderly Stop, nor because of bad messages or failing individual lnd calls.",
 ["fault_sequences", "schedules", "crash_points"],
 "every instant at which the stream can fail, each way it can fail, in any interleaving with messages, registrations and Stop",
 "tests cover one stream error and one closed channel on an otherwise idle messenger",
 ["onionmsg/messenger.go", "boltnd.go", "rpcserver/server.go"],
 [("manageOnionMessages exit paths", "onionmsg/messenger.go"), ("requestShutdown", "boltnd.go")],
 (), ["the RequestShutdown option callback"])

prop("C11", "Direct connect is bounded, honours its context, sends only when connected",
 "A direct send to a node that is not yet a peer asks lnd once to connect to an address that node advertises, and hands over the message only after lnd has reported the node as a connected peer; a node that already is a peer is not connected to again. If the connection does not come up it gives up with an error after a wait of about five seconds, a cancelled call returns promptly, and if the peer appears within the wait the send succeeds; sends that did not ask for a direct connection never connect to anyone.",
 ["schedules", "fault_sequences", "configurations"],
 "all connection delays and failures, cancel points, and lnd latencies",
 "tests use mocks with a fixed sequence of peer lists and no time",
 ["onionmsg/messenger.go"],
 [("lookupAndConnect / findPeer", "onionmsg/messenger.go")],
 [("lookupPeerBackoff, lookupPeerAttempts", "1 s and 5 polls", "onionmsg/messenger.go")],
 [LND, RPC])

prop("C12", "A send's result tells the truth about what was sent",
 "SendOnionMessage returns OK only if lnd accepted exactly one onion message for it, addressed to the first hop of the path and unwrapping hop by hop to the requested destination with the requested payloads and reply path; if it returns an error, lnd accepted none. Invalid requests are refused as InvalidArgument without contacting lnd, a destination without a path gives NotFound (only if no channels lead there: their fees, sizes, time locks and payment history do not matter), and other failures give an error that is neither. A call whose client cancels it returns promptly.",
 ["inputs", "fault_sequences", "schedules"],
 "all requests, valid or not, all lnd failures at every step of a send, cancellation at any point, any number of concurrent sends",
 "tests mock either the messenger or lnd and look at single calls",
 ["rpcserver/impl_sendonionmessage.go", "rpcserver/common.go", "onionmsg/messenger.go", "routes/blinded.go"],
 [("parseSendOnionMessageRequest", "rpcserver/impl_sendonionmessage.go"), ("SendMessage", "onionmsg/messenger.go"), ("CreateBlindedRoute", "routes/blinded.go")],
 (), [RPC, LND])

prop("C13", "Every send and every blinded route uses fresh keys and hides its content",
 "No two sends and no two generated blinded routes, on any node or after any restart, share an ephemeral onion key or a blinding point of their own choosing (a message sent directly to a blinded route uses that route's), so repeating an identical request yields an unrelated message that is delivered again. Payloads, reply paths and the identities of later hops never appear in clear in what is handed to lnd or in what an intermediate hop can decrypt beyond its own next hop, and when the system's randomness fails the call fails instead of sending.",
 ["histories", "schedules", "fault_sequences"],
 "all sequences of sends and route requests, concurrent or repeated, across restarts, with failing randomness",
 "tests never compare two messages and never fail the random source",
 ["onionmsg/messenger.go", "routes/blinded.go"],
 [("fresh session and blinding keys per SendMessage", "onionmsg/messenger.go"), ("fresh session key per ReplyPath", "routes/blinded.go")],
 (), [LND, "crypto/rand.Reader", RPC])

prop("C14", "A generated blinded route runs through an eligible peer and leads to us",
 "A route returned by GenerateBlindedRoute starts at a peer with which lnd reports an active channel and whose graph entry has an announcement, at least one channel and all requested required features; of those it is one with the most channels, and peers unknown to the graph are merely skipped. Messages sent to the route reach this node; if no peer is eligible or lnd fails otherwise, the call returns an error and no route.",
 ["configurations", "fault_sequences", "histories", "schedules"],
 "all channel sets, graph contents and feature requests, changing while requests run, and any lnd call failing",
 "tests check a few fixed peer lists against mocks and never send a message along a generated route",
 ["routes/blinded.go", "rpcserver/impl_generate_blinded_route.go", "rpcserver/common.go", "lnwire/route_blinding.go"],
 [("getRelayingPeers / createRelayCheck / buildBlindedRoute", "routes/blinded.go")],
 (), [RPC, LND])

prop("C15", "A stalled lnd only ever costs bounded time",
 "A key operation that lnd does not answer is given up after fifteen seconds: the message concerned is dropped, later messages are processed, and starting up against an lnd that does not answer fails with an error in bounded time. Once lnd answers again, messages and RPCs are served as if nothing had happened.",
 ["fault_sequences", "schedules"],
 "stalls of any lnd call at any point, of any length, one or many, followed by recovery",
 "tests have no clock and no stalled call",
 ["onionmsg/node_ecdh.go", "onionmsg/messenger.go", "rpcserver/server.go"],
 [("context with timeout around every signer call", "onionmsg/node_ecdh.go")],
 (), [LND, RPC])

prop("C16", "Payloads are delivered in arrival order without gaps",
 "Each subscriber receives its payloads in the order in which lnd handed the messages over, and while it stays subscribed and no fault hits a message, none is skipped, however slowly it reads. Slow reading only delays: nothing is lost, duplicated or reordered, and everything pending flows once reading resumes.",
 ["schedules", "histories"],
 "all interleavings of arriving messages with readers of any speed that pause and resume",
 "tests deliver one message to one subscriber",
 ["onionmsg/messenger.go", "rpcserver/impl_subscribe_onion_payload.go"],
 [("single event loop and blocking hand-off to the subscription", "onionmsg/messenger.go, rpcserver/impl_subscribe_onion_payload.go")],
 (), ["stream Send calls", LND])

prop("C17", "Concurrent calls do not affect each other's results",
 "Each RPC returns what it would return if it ran alone against the same lnd answers, however many others run at the same time on the same or other nodes: requests, payloads, reply paths, routes, decoded offers and errors never leak from one call into another, and no call changes its caller's request. Cancelling or failing one call leaves the others unaffected.",
 ["schedules", "inputs", "histories"],
 "all interleavings, at statement granularity, of any mix of calls",
 "tests run every call alone",
 ["rpcserver/impl_sendonionmessage.go", "rpcserver/impl_decodeoffer.go", "rpcserver/impl_generate_blinded_route.go", "onionmsg/messenger.go", "routes/blinded.go", "lnwire", "offers"],
 [("no state shared between calls outside the event loop", "rpcserver, onionmsg, routes, lnwire, offers")],
 (), [RPC, LND])

prop("C18", "Start tries lnd exactly as often as configured, with the configured wait",
 "Start makes one connection attempt plus up to the configured number of retries (0 to 255), waiting the configured time between attempts, and stops trying at the first success; it then becomes ready. If every attempt fails it returns an error that carries the last cause, and the instance never becomes ready.",
 ["configurations", "fault_sequences"],
 "all retry counts, waits and sequences of connection results and durations",
 "no test starts the top-level instance: it needs a running lnd",
 ["boltnd.go", "config.go"],
 [("connection loop", "boltnd.go Start")],
 [("LNDRetires, LNDWait", "retry configuration", "config.go")],
 ["lndclient.NewLndServices calls", "simulated clock"], "lndclient.NewLndServices is replaced at build time, in the instrumented copy, by the simulator's connector")

prop("C19", "A restarted node works again and old blinded routes still reach it",
 "After a stop or a crash at any point and a restart with the same lnd, the node serves RPCs and processes messages again, blinded routes it issued before still lead to it, and payload types it had subscribed before are free. Nothing from the previous run is delivered or sent unless a message arrives again.",
 ["crash_points", "histories", "fault_sequences"],
 "every point at which the process can die or be stopped, and every sequence of such restarts under traffic",
 "no test restarts anything",
 ["boltnd.go", "rpcserver/server.go", "onionmsg/messenger.go", "routes/blinded.go"],
 [("no durable state; blinded routes depend only on the node key", "routes/blinded.go, onionmsg/node_ecdh.go")],
 (), [RPC, LND])

prop("C20", "Served calls, subscriptions and messages leave nothing running behind",
 "While a node runs, what it has served does not pile up: once an RPC or subscription has returned, or a message has been handled, whatever the outcome, the goroutines working for it end within bounded time, so their number does not grow with the calls, subscriptions and messages of the past.",
 ["histories", "fault_sequences", "schedules"],
 "every outcome of every kind of call and message (served, refused, failed, cancelled, timed out, unread), under every interleaving and failing or slow lnd calls",
 "tests stop each component right after the step they check, and none counts goroutines",
 ["rpcserver/impl_subscribe_onion_payload.go", "rpcserver/server.go", "onionmsg/messenger.go", "onionmsg/node_ecdh.go"],
 [("handleSubscribeOnionPayload and its goroutines", "rpcserver/impl_subscribe_onion_payload.go"), ("registration requests to the event loop", "onionmsg/messenger.go")],
 (), ["the simulated scheduler's list of goroutines, once all calls have returned"])

# pure functions: listed because users rely on them, not claimed by simulation
prop("N01", "Onion message, payload and blinded-data encodings round-trip",
 "Encoding and then decoding any onion message, onion payload, reply path or blinded route data returns the same value, and decoding accepts only canonical streams.",
 ["inputs"], "all values and all byte strings", "tests round-trip a few values",
 ["lnwire/onion_message.go", "lnwire/onion_msg_payload.go", "lnwire/route_blinding.go"], [("TLV codecs", "lnwire")])
prop("N02", "Merkle roots and signatures follow the BOLT 12 definition",
 "The merkle root of any TLV stream equals the one the specification defines, and a signature verifies exactly when it was made for that stream, message name and key.",
 ["inputs"], "all TLV streams, keys and signatures", "tests use the published vectors",
 ["lnwire/bolt12_merkle.go", "lnwire/bolt12_signature.go"], [("merkle tree", "lnwire/bolt12_merkle.go")])
prop("N03", "Offers, invoice requests and invoices are validated as specified",
 "A decoded offer, invoice request or invoice is accepted exactly when it satisfies the field, amount, quantity, expiry and signature rules of the specification.",
 ["inputs"], "all encoded offers, requests and invoices", "tests use a table of cases",
 ["lnwire/bolt12_offer.go", "lnwire/bolt12_invoice_request.go", "lnwire/bolt12_invoice.go"], [("Validate methods", "lnwire")])
prop("N04", "Offer strings decode as BOLT 12 defines, or are rejected",
 "A string decodes to an offer exactly when it is a well-formed BOLT 12 bech32 string, including continuation markers and case rules.",
 ["inputs"], "all strings", "tests use the published strings",
 ["offers/bech32.go", "offers/encoding.go"], [("bech32 decoding", "offers/bech32.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
