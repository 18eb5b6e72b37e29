From a37a6cf8e4bc3d6ffdb1ebf96921c938f355f6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:26 +0000
Subject: [PATCH 01/12] fix: deliver final hop payloads that have no body

DecodeOnionMessagePayload used the length of a tlv's entry to tell apart
the records that it recognized, so payloads without a body were dropped
for all types except invoices and invoice requests.
---
 lnwire/onion_msg_payload.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lnwire/onion_msg_payload.go b/lnwire/onion_msg_payload.go
index 0a4f7fd..f3ba653 100644
--- a/lnwire/onion_msg_payload.go
+++ b/lnwire/onion_msg_payload.go
@@ -165,9 +165,13 @@ func DecodeOnionMessagePayload(o []byte) (*OnionMessagePayload, error) {
 			continue
 		}
 
-		// Skip any tlvs that have been recognized in our decoding (a
-		// zero entry means that we recognized the entry).
-		if len(tlvBytes) == 0 {
+		// Skip the tlvs in our range that have been recognized in our
+		// decoding, they are added below. We can't tell them apart by
+		// the length of their entry, because a payload that we did not
+		// recognize may have no body (it is just a marker).
+		if tlvType == InvoiceNamespaceType ||
+			tlvType == InvoiceRequestNamespaceType {
+
 			continue
 		}
 
@@ -184,8 +188,7 @@ func DecodeOnionMessagePayload(o []byte) (*OnionMessagePayload, error) {
 
 	// If we read out an invoice tlv sub-namespace, add it to our set of
 	// final payloads. This value won't have been added in the loop above,
-	// because we recognized the TLV so len(tlvMap[invoiceType].tlvBytes)
-	// will be zero (thus, skipped above).
+	// because we recognized the TLV (thus, skipped above).
 	if _, ok := tlvMap[InvoiceNamespaceType]; ok {
 		onionPayload.FinalHopPayloads = append(
 			onionPayload.FinalHopPayloads, invoicePayload,
-- 
2.43.0


From 1b9d798d5d730ca0e6971a036e10d2ca72e39707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:26 +0000
Subject: [PATCH 02/12] fix: include payloads and reply path in direct sends to
 a blinded route

When we are directly connected to the introduction node of a blinded
destination, the final payloads and reply path that we were asked to
send were left out of the onion message.
---
 routes/blinded.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/routes/blinded.go b/routes/blinded.go
index aa904e8..ee219fb 100644
--- a/routes/blinded.go
+++ b/routes/blinded.go
@@ -693,13 +693,20 @@ func createOnionMessage(sphinxPath *sphinx.PaymentPath,
 func directToBlinded(req *BlindedRouteRequest) (*BlindedRouteResponse, error) {
 	var sphinxPath sphinx.PaymentPath
 
-	for i, hop := range req.blindedDestination.Hops {
-		sphinxHop, err := createSphinxHop(
-			*hop.BlindedNodeID,
-			&lnwire.OnionMessagePayload{
-				EncryptedData: hop.EncryptedData,
-			},
-		)
+	blindedHops := req.blindedDestination.Hops
+	for i, hop := range blindedHops {
+		payload := &lnwire.OnionMessagePayload{
+			EncryptedData: hop.EncryptedData,
+		}
+
+		// If we're on the last hop, include the tlvs intended for the
+		// final hop and the reply path (if provided).
+		if i == len(blindedHops)-1 {
+			payload.FinalHopPayloads = req.finalPayloads
+			payload.ReplyPath = req.replyPath
+		}
+
+		sphinxHop, err := createSphinxHop(*hop.BlindedNodeID, payload)
 		if err != nil {
 			return nil, fmt.Errorf("sphinx hop "+
 				"%v: %w", i, err)
-- 
2.43.0


From 6aef195aeedb135bd111465bdbcab958cdbbb8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:48 +0000
Subject: [PATCH 03/12] fix: fail routes with more hops than fit in an onion
 packet

---
 routes/blinded.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/routes/blinded.go b/routes/blinded.go
index ee219fb..5e937a9 100644
--- a/routes/blinded.go
+++ b/routes/blinded.go
@@ -53,6 +53,10 @@ var (
 	// the final hop in a path provided for a send to a blinded route.
 	ErrNoIntroductionNode = errors.New("introduction node should be " +
 		"final hop when sending to a blinded path")
+
+	// ErrTooManyHops is returned when a route has more hops than can be
+	// included in a single onion packet.
+	ErrTooManyHops = errors.New("route exceeds maximum onion hop count")
 )
 
 // BlindedRouteGenerator produces blinded routes.
@@ -563,6 +567,10 @@ func blindedToSphinx(blindedRoute *sphinx.BlindedPath,
 		extraHopCount = len(extraHops)
 	)
 
+	if err := validateHopCount(ourHopCount + extraHopCount); err != nil {
+		return nil, err
+	}
+
 	// Fill in the blinded node id and encrypted data for all hops. This
 	// requirement differs from blinded hops used for payments, where we
 	// don't use the blinded introduction node id. However, since onion
@@ -627,6 +635,17 @@ func blindedToSphinx(blindedRoute *sphinx.BlindedPath,
 	return &sphinxPath, nil
 }
 
+// validateHopCount checks that the number of hops provided fits into an onion
+// packet.
+func validateHopCount(hopCount int) error {
+	if hopCount > sphinx.NumMaxHops {
+		return fmt.Errorf("%w: %v hops, maximum: %v", ErrTooManyHops,
+			hopCount, sphinx.NumMaxHops)
+	}
+
+	return nil
+}
+
 // createSphinxHop encodes an onion message payload and produces a sphinx
 // onion hop for it.
 func createSphinxHop(nodeID btcec.PublicKey,
@@ -694,6 +713,10 @@ func directToBlinded(req *BlindedRouteRequest) (*BlindedRouteResponse, error) {
 	var sphinxPath sphinx.PaymentPath
 
 	blindedHops := req.blindedDestination.Hops
+	if err := validateHopCount(len(blindedHops)); err != nil {
+		return nil, err
+	}
+
 	for i, hop := range blindedHops {
 		payload := &lnwire.OnionMessagePayload{
 			EncryptedData: hop.EncryptedData,
-- 
2.43.0


From ccec864638105c772528b17cb54f6ce082f539a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 04/12] fix: fail lookup of nodes that have no announcement in
 the graph

---
 onionmsg/messenger.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/onionmsg/messenger.go b/onionmsg/messenger.go
index bba4af2..51d0e62 100644
--- a/onionmsg/messenger.go
+++ b/onionmsg/messenger.go
@@ -471,7 +471,10 @@ func (m *Messenger) lookupAndConnect(ctx context.Context,
 		return fmt.Errorf("could not lookup node: %w", err)
 	}
 
-	if len(info.Addresses) == 0 {
+	// The node field is not set for nodes that have channels in the graph
+	// but whose announcement we have not received, in which case we don't
+	// have any addresses for the peer.
+	if info.Node == nil || len(info.Addresses) == 0 {
 		return fmt.Errorf("%w: %v", ErrNoAddresses, peer)
 	}
 
-- 
2.43.0


From 3f4826c2b3e4b68e450e191f96be74b54ad33974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:38 +0000
Subject: [PATCH 05/12] fix: release rpcs that wait for startup when the server
 shuts down

---
 rpcserver/server.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/rpcserver/server.go b/rpcserver/server.go
index 574335e..689391a 100644
--- a/rpcserver/server.go
+++ b/rpcserver/server.go
@@ -123,13 +123,25 @@ func (s *Server) Stop() error {
 	return nil
 }
 
-// waitForReady blocks until the server is initialized or the context provided
-// is cancelled.
+// waitForReady blocks until the server is initialized, the server is shut down
+// or the context provided is cancelled.
 func (s *Server) waitForReady(ctx context.Context) error {
+	// If we're already initialized there's nothing to wait for, our callers
+	// handle shutdown themselves.
 	select {
 	case <-s.ready:
 		return nil
 
+	default:
+	}
+
+	select {
+	case <-s.ready:
+		return nil
+
+	case <-s.quit:
+		return ErrShuttingDown
+
 	case <-ctx.Done():
 		return status.Error(codes.Unavailable, "server not ready")
 	}
-- 
2.43.0


From 4eb43ebba00497fa64b1646224af5a171a39eff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 06/12] fix: don't block the messenger on a subscription whose
 stream has failed

---
 rpcserver/impl_subscribe_onion_payload.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rpcserver/impl_subscribe_onion_payload.go b/rpcserver/impl_subscribe_onion_payload.go
index 9427e0b..e0ac8de 100644
--- a/rpcserver/impl_subscribe_onion_payload.go
+++ b/rpcserver/impl_subscribe_onion_payload.go
@@ -62,6 +62,12 @@ func handleSubscribeOnionPayload(ctx context.Context, tlvType tlv.Type,
 	messenger onionmsg.OnionMessenger,
 	send func(*offersrpc.SubscribeOnionPayloadResponse) error) error {
 
+	// Cancel our context when the subscription exits for any reason, so that
+	// our handler never blocks on a subscription that no longer consumes
+	// its messages.
+	ctx, cancel := context.WithCancel(ctx)
+	defer cancel()
+
 	// Create an onion message handler which will consume messages from
 	// our incoming channel, dropping messages if our server is shut down
 	// or the client cancels their context.
@@ -96,6 +102,10 @@ func handleSubscribeOnionPayload(ctx context.Context, tlvType tlv.Type,
 	}
 
 	defer func() {
+		// Release our handler before we deregister it, because the
+		// messenger can't process our request while the handler blocks.
+		cancel()
+
 		if err := messenger.DeregisterHandler(tlvType); err != nil {
 			log.Errorf("Deregister handler: %v failed: %v",
 				tlvType, err)
-- 
2.43.0


From 0fe7d09bb402d855b52e8d76fa0efc4f40fdcc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:43 +0000
Subject: [PATCH 07/12] fix: deliver remaining final hop payloads when one
 handler fails

---
 onionmsg/messenger.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/onionmsg/messenger.go b/onionmsg/messenger.go
index 51d0e62..913aad9 100644
--- a/onionmsg/messenger.go
+++ b/onionmsg/messenger.go
@@ -860,7 +860,10 @@ func handleOnionMessage(msg lndclient.CustomMessage,
 		}
 
 		// For each of our final hop payloads, identify a handling
-		// function (if any) and handoff the payload.
+		// function (if any) and handoff the payload. If a handler
+		// fails, we still handoff the remaining payloads because their
+		// handlers are independent of the one that failed.
+		var handlerErr error
 		for _, extraData := range payload.FinalHopPayloads {
 			handler, ok := kit.handlers[extraData.TLVType]
 			if !ok {
@@ -873,17 +876,18 @@ func handleOnionMessage(msg lndclient.CustomMessage,
 			log.Debugf("Handing off TLV: %v / %w to handler",
 				extraData.TLVType, extraData.Value)
 
-			if err := handler(
+			err := handler(
 				payload.ReplyPath, payload.EncryptedData,
 				extraData.Value,
-			); err != nil {
-				return fmt.Errorf("handler for: %v/%x "+
+			)
+			if err != nil && handlerErr == nil {
+				handlerErr = fmt.Errorf("handler for: %v/%x "+
 					"failed: %w", extraData.TLVType,
 					extraData.Value, err)
 			}
 		}
 
-		return nil
+		return handlerErr
 
 	// We don't support forwarding at present, so we fail if an onion with
 	// more hops is received.
-- 
2.43.0


From a5ddee70a4940eb4f9caa6d2b1e9a74fa8ef08c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:43 +0000
Subject: [PATCH 08/12] fix: fail handler registration once the messenger's
 event loop has exited

---
 onionmsg/messenger.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/onionmsg/messenger.go b/onionmsg/messenger.go
index 913aad9..c89857e 100644
--- a/onionmsg/messenger.go
+++ b/onionmsg/messenger.go
@@ -169,6 +169,10 @@ type Messenger struct {
 
 	wg   sync.WaitGroup
 	quit chan struct{}
+
+	// exited is closed when our main event loop exits, which may happen
+	// before the messenger is stopped if lnd shuts down our streams.
+	exited chan struct{}
 }
 
 // NewOnionMessenger creates a new onion messenger.
@@ -188,6 +192,7 @@ func NewOnionMessenger(params *chaincfg.Params, lnd LndOnionMsg,
 		handlerRegistration: make(chan *registerHandler),
 		requestShutdown:     shutdown,
 		quit:                make(chan struct{}),
+		exited:              make(chan struct{}),
 	}
 }
 
@@ -207,6 +212,8 @@ func (m *Messenger) Start() error {
 		defer m.wg.Done()
 
 		err := m.manageOnionMessages(context.Background())
+		close(m.exited)
+
 		if err != nil && err != ErrShuttingDown {
 			m.requestShutdown(err)
 		}
@@ -281,6 +288,11 @@ func (m *Messenger) handleRegistration(request *registerHandler,
 	select {
 	case m.handlerRegistration <- request:
 
+	// The main loop is gone, so there is nobody left to handle our request.
+	case <-m.exited:
+		return fmt.Errorf("%w: could not %v: %v",
+			ErrShuttingDown, action, request.tlvType)
+
 	case <-m.quit:
 		return fmt.Errorf("%w: could not %v: %v",
 			ErrShuttingDown, action, request.tlvType)
-- 
2.43.0


From dc0b0732617d1fd9cacc9206687e5271435ac33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:00 +0000
Subject: [PATCH 09/12] fix: allow the maximum number of lnd connection retries

---
 boltnd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boltnd.go b/boltnd.go
index 6ad6cdd..d25c860 100644
--- a/boltnd.go
+++ b/boltnd.go
@@ -71,7 +71,7 @@ func (b *Boltnd) Start() error {
 	// We allow zero retires, so we iterate with retries + 1 to allow at
 	// least one connection attempt for lnd.
 	var connErr error
-	for i := 0; i < int(b.cfg.LNDRetires+1); i++ {
+	for i := 0; i < int(b.cfg.LNDRetires)+1; i++ {
 		log.Infof("Attempt: %v to connect to lnd", i)
 
 		b.lnd, connErr = lndclient.NewLndServices(b.cfg.LndClientCfg)
-- 
2.43.0


From 40f89715e02c980f2fe907268279b94b7d2e62f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:13 +0000
Subject: [PATCH 10/12] fix: coordinate shutdown with a startup that is still
 in progress

---
 boltnd.go | 53 ++++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 48 insertions(+), 5 deletions(-)

diff --git a/boltnd.go b/boltnd.go
index d25c860..d807a9f 100644
--- a/boltnd.go
+++ b/boltnd.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -17,6 +18,10 @@ import (
 	"gopkg.in/macaroon-bakery.v2/bakery"
 )
 
+// errShuttingDown is returned when startup is aborted because boltnd has been
+// stopped.
+var errShuttingDown = errors.New("boltnd shutting down")
+
 // Boltnd holds opt-in bolt features that are externally implemented for lnd.
 type Boltnd struct {
 	started int32 // to be used atomically
@@ -26,6 +31,13 @@ type Boltnd struct {
 	rpcServer *rpcserver.Server
 
 	cfg *Config
+
+	// startMu ensures that we don't shut down while we're busy starting
+	// our components, and that we don't start them once we've shut down.
+	startMu sync.Mutex
+
+	// quit is closed when boltnd is stopped.
+	quit chan struct{}
 }
 
 // NewBoltnd returns a new external boltnd implementation. Note that the
@@ -48,7 +60,8 @@ func NewBoltnd(opts ...ConfigOption) (*Boltnd, error) {
 	setupLoggers(cfg)
 
 	impl := &Boltnd{
-		cfg: cfg,
+		cfg:  cfg,
+		quit: make(chan struct{}),
 	}
 
 	var err error
@@ -70,17 +83,32 @@ func (b *Boltnd) Start() error {
 
 	// We allow zero retires, so we iterate with retries + 1 to allow at
 	// least one connection attempt for lnd.
-	var connErr error
+	var (
+		lnd     *lndclient.GrpcLndServices
+		connErr error
+	)
 	for i := 0; i < int(b.cfg.LNDRetires)+1; i++ {
+		select {
+		case <-b.quit:
+			return errShuttingDown
+
+		default:
+		}
+
 		log.Infof("Attempt: %v to connect to lnd", i)
 
-		b.lnd, connErr = lndclient.NewLndServices(b.cfg.LndClientCfg)
+		lnd, connErr = lndclient.NewLndServices(b.cfg.LndClientCfg)
 		if connErr != nil {
 			log.Errorf("error starting lndclient: %w (attempt: %v)",
 				connErr, i)
 
-			time.Sleep(b.cfg.LNDWait)
-			continue
+			select {
+			case <-time.After(b.cfg.LNDWait):
+				continue
+
+			case <-b.quit:
+				return errShuttingDown
+			}
 		}
 
 		log.Infof("Successfully connected to lnd on attempt: %v", i)
@@ -93,6 +121,17 @@ func (b *Boltnd) Start() error {
 		return fmt.Errorf("could not connect to lnd: %w", connErr)
 	}
 
+	b.startMu.Lock()
+	defer b.startMu.Unlock()
+
+	// If we were stopped while we were connecting to lnd, nobody else will
+	// close the connection that we've just made.
+	if atomic.LoadInt32(&b.stopped) == 1 {
+		lnd.Close()
+		return errShuttingDown
+	}
+
+	b.lnd = lnd
 	if err := b.rpcServer.Start(&b.lnd.LndServices); err != nil {
 		return fmt.Errorf("error starting rpcserver: %v", err)
 	}
@@ -107,6 +146,10 @@ func (b *Boltnd) Stop() error {
 	}
 
 	log.Info("Stopping Boltnd")
+	close(b.quit)
+
+	b.startMu.Lock()
+	defer b.startMu.Unlock()
 
 	if err := b.rpcServer.Stop(); err != nil {
 		return fmt.Errorf("could not stop rpcserver: %v", err)
-- 
2.43.0


From 2d0caa9cf6d945dc273bc6de16a01cb322572252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:33 +0000
Subject: [PATCH 11/12] fix: don't read reply paths past the end of their
 record

---
 lnwire/onion_msg_payload.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lnwire/onion_msg_payload.go b/lnwire/onion_msg_payload.go
index f3ba653..7a13248 100644
--- a/lnwire/onion_msg_payload.go
+++ b/lnwire/onion_msg_payload.go
@@ -41,6 +41,10 @@ var (
 	// ErrNoHops is returned when we handle a reply path that does not
 	// have any hops (this makes no sense).
 	ErrNoHops = errors.New("reply path requires hops")
+
+	// ErrReplyPathLength is returned when a reply path's record has bytes
+	// that are not part of the reply path.
+	ErrReplyPathLength = errors.New("reply path shorter than its record")
 )
 
 // OnionMessagePayload contains the contents of an onion message payload.
@@ -316,6 +320,12 @@ func decodeReplyPath(r io.Reader, val interface{}, buf *[8]byte,
 	l uint64) error {
 
 	if p, ok := val.(*ReplyPath); ok && l > 35 {
+		// Limit our reads to the length of the record, so that a reply
+		// path that is longer than its record does not consume the
+		// records that follow it.
+		limited := &io.LimitedReader{R: r, N: int64(l)}
+		r = limited
+
 		err := tlv.DPubKey(r, &p.FirstNodeID, buf, 33)
 		if err != nil {
 			return fmt.Errorf("decode first id: %w", err)
@@ -344,6 +354,11 @@ func decodeReplyPath(r io.Reader, val interface{}, buf *[8]byte,
 			p.Hops = append(p.Hops, hop)
 		}
 
+		if limited.N != 0 {
+			return fmt.Errorf("%w: %v bytes left",
+				ErrReplyPathLength, limited.N)
+		}
+
 		return nil
 	}
 
-- 
2.43.0


From 0bf5b75d8f09153a93e3b9e051b5167e84efc37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:29 +0000
Subject: [PATCH 12/12] fix: refuse reply paths without hops as invalid
 requests

A reply path without hops was only rejected while encoding the onion
message, after a route had been looked up (or a direct connection made),
and was reported as an internal error. Validate it with the rest of the
request.
---
 onionmsg/messenger.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/onionmsg/messenger.go b/onionmsg/messenger.go
index c89857e..ac8cd47 100644
--- a/onionmsg/messenger.go
+++ b/onionmsg/messenger.go
@@ -370,6 +370,11 @@ func (s *SendMessageRequest) Validate() error {
 		return ErrNoBlindedHops
 	}
 
+	// A reply path without hops can't be encoded or replied to.
+	if s.ReplyPath != nil && len(s.ReplyPath.Hops) == 0 {
+		return fmt.Errorf("%w: reply path", ErrNoBlindedHops)
+	}
+
 	return nil
 }
 
-- 
2.43.0

