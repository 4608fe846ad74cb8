From 682fcc6836f41d05036ad70ca6dfdd0d2c0ca076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:27 +0000
Subject: [PATCH 01/26] fix: do not crash on provider or publisher addresses
 that are missing or cannot be parsed

---
 internal/registry/registry.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 708f328..2df9cb9 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -418,7 +418,10 @@ func (r *Registry) RegisterOrUpdate(ctx context.Context, providerID peer.ID, add
 			if publisher.ID != info.Publisher {
 				// Publisher ID changed.
 				info.Publisher = publisher.ID
-				info.PublisherAddr = publisher.Addrs[0]
+				info.PublisherAddr = nil
+				if len(publisher.Addrs) != 0 {
+					info.PublisherAddr = publisher.Addrs[0]
+				}
 				fullRegister = true
 			} else if len(publisher.Addrs) != 0 {
 				// Use provided publisher addrs.
@@ -452,7 +455,7 @@ func (r *Registry) RegisterOrUpdate(ctx context.Context, providerID peer.ID, add
 	if len(addrs) != 0 {
 		maddrs, err := stringsToMultiaddrs(addrs)
 		if err != nil {
-			panic(err)
+			return err
 		}
 		info.AddrInfo.Addrs = maddrs
 	}
@@ -579,7 +582,9 @@ func (r *Registry) ImportProviders(ctx context.Context, fromURL *url.URL) (int,
 			// provider ad publisher.
 			log.Infow("Provider does not have valid publisher, assuming same as provider", "reason", pubErr, "provider", regInfo.AddrInfo.ID)
 			regInfo.Publisher = regInfo.AddrInfo.ID
-			regInfo.PublisherAddr = regInfo.AddrInfo.Addrs[0]
+			if len(regInfo.AddrInfo.Addrs) != 0 {
+				regInfo.PublisherAddr = regInfo.AddrInfo.Addrs[0]
+			}
 		} else {
 			regInfo.Publisher = pInfo.Publisher.ID
 			regInfo.PublisherAddr = pInfo.Publisher.Addrs[0]
@@ -764,7 +769,7 @@ func (r *Registry) loadPersistedProviders(ctx context.Context) (int, error) {
 			return 0, err
 		}
 
-		if pinfo.Publisher.Validate() == nil && pinfo.PublisherAddr == nil && pinfo.Publisher == pinfo.AddrInfo.ID {
+		if pinfo.Publisher.Validate() == nil && pinfo.PublisherAddr == nil && pinfo.Publisher == pinfo.AddrInfo.ID && len(pinfo.AddrInfo.Addrs) != 0 {
 			pinfo.PublisherAddr = pinfo.AddrInfo.Addrs[0]
 		}
 		r.providers[peerID] = pinfo
-- 
2.43.0


From 4ad9b94478bc516d2ccca789536e938ecfe92bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:27 +0000
Subject: [PATCH 02/26] fix: apply a poll override only to the provider it is
 configured for

---
 internal/registry/registry.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 2df9cb9..6966445 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -823,6 +823,7 @@ func (r *Registry) pollProviders(poll polling, pollOverrides map[peer.ID]polling
 				// No publisher.
 				continue
 			}
+			poll := poll
 			override, ok := pollOverrides[peerID]
 			if ok {
 				poll = override
-- 
2.43.0


From 4afe4c638a365b7168211849e6b64cf6e23227ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:47 +0000
Subject: [PATCH 03/26] fix: never modify a provider info that was already
 handed out

---
 internal/registry/registry.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 6966445..81b314d 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -628,8 +628,9 @@ func (r *Registry) RemoveProvider(ctx context.Context, providerID peer.ID) error
 	}
 	if pinfo != nil {
 		// Tell ingester to delete its provider data.
-		pinfo.deleted = true
-		r.syncChan <- pinfo
+		removed := *pinfo
+		removed.deleted = true
+		r.syncChan <- &removed
 	}
 	return nil
 }
@@ -831,7 +832,9 @@ func (r *Registry) pollProviders(poll polling, pollOverrides map[peer.ID]polling
 			if info.lastContactTime.IsZero() {
 				// There has been no contact since startup.  Poll during next
 				// call to this function if no update for provider.
-				info.lastContactTime = now.Add(-poll.interval)
+				updated := *info
+				updated.lastContactTime = now.Add(-poll.interval)
+				r.providers[peerID] = &updated
 				continue
 			}
 			noContactTime := now.Sub(info.lastContactTime)
@@ -851,11 +854,16 @@ func (r *Registry) pollProviders(poll polling, pollOverrides map[peer.ID]polling
 					log.Errorw("Failed to update deleted provider info", "err", err)
 				}
 				// Tell the ingester to remove data for the provider.
-				info.deleted = true
+				removed := *info
+				removed.deleted = true
+				info = &removed
 			} else if sincePollingStarted >= 2*poll.retryAfter {
 				// Still polling after at least one retry, so mark inactive.
 				// This will exclude the provider from find responses.
-				info.inactive = true
+				updated := *info
+				updated.inactive = true
+				info = &updated
+				r.providers[peerID] = info
 			}
 			select {
 			case r.syncChan <- info:
-- 
2.43.0


From 82bd28a1b0baa78237d7a30832a854e060d51d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:12 +0000
Subject: [PATCH 04/26] fix: find must not delete the index data of a provider
 that is only inactive

---
 server/finder/handler/finder_handler.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/finder/handler/finder_handler.go b/server/finder/handler/finder_handler.go
index 0255d29..9342260 100644
--- a/server/finder/handler/finder_handler.go
+++ b/server/finder/handler/finder_handler.go
@@ -60,6 +60,12 @@ func (h *FinderHandler) Find(mhashes []multihash.Multihash) (*model.FindResponse
 			if !ok {
 				pinfo := h.registry.ProviderInfo(provID)
 				if pinfo == nil {
+					// The provider is either inactive or not in the registry.
+					// An inactive provider is not returned in the result, but
+					// its data is kept.
+					if h.registry.IsRegistered(provID) {
+						continue
+					}
 					// If provider not in registry, then provider was deleted.
 					// Tell the indexed core to delete the contextID for the
 					// deleted provider. Delete the contextID from the core,
-- 
2.43.0


From 2d496c955685c4292576e0772d79d3bb24a8d571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:35 +0000
Subject: [PATCH 05/26] fix: reject register, index and discover requests not
 signed by the provider they name

---
 api/v0/ingest/model/discover_request.go | 6 +++++-
 api/v0/ingest/model/ingest_request.go   | 6 +++++-
 api/v0/ingest/model/register_request.go | 5 ++++-
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/api/v0/ingest/model/discover_request.go b/api/v0/ingest/model/discover_request.go
index 83c2dbc..8e7fad1 100644
--- a/api/v0/ingest/model/discover_request.go
+++ b/api/v0/ingest/model/discover_request.go
@@ -2,6 +2,7 @@ package model
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 
 	"github.com/libp2p/go-libp2p-core/crypto"
@@ -64,7 +65,7 @@ func MakeDiscoverRequest(providerID peer.ID, privateKey crypto.PrivKey, discover
 // ReadDiscoverRequest unmarshals a DiscoverRequest from bytes, verifies the
 // signature, and returns the DiscoverRequest
 func ReadDiscoverRequest(data []byte) (*DiscoverRequest, error) {
-	_, untypedRecord, err := record.ConsumeEnvelope(data, DiscoverRequestEnvelopeDomain)
+	envelope, untypedRecord, err := record.ConsumeEnvelope(data, DiscoverRequestEnvelopeDomain)
 	if err != nil {
 		return nil, fmt.Errorf("cannot consume discover request envelope: %s", err)
 	}
@@ -72,5 +73,8 @@ func ReadDiscoverRequest(data []byte) (*DiscoverRequest, error) {
 	if !ok {
 		return nil, fmt.Errorf("unmarshaled request is not a *DiscoverRequest")
 	}
+	if !rec.ProviderID.MatchesPublicKey(envelope.PublicKey) {
+		return nil, errors.New("discover request not signed by provider")
+	}
 	return rec, nil
 }
diff --git a/api/v0/ingest/model/ingest_request.go b/api/v0/ingest/model/ingest_request.go
index 7678e05..9b05257 100644
--- a/api/v0/ingest/model/ingest_request.go
+++ b/api/v0/ingest/model/ingest_request.go
@@ -2,6 +2,7 @@ package model
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 
 	"github.com/libp2p/go-libp2p-core/crypto"
@@ -73,7 +74,7 @@ func MakeIngestRequest(providerID peer.ID, privateKey crypto.PrivKey, m multihas
 // ReadIngestRequest unmarshals an IngestRequest from bytes, verifies the
 // signature, and returns the IngestRequest
 func ReadIngestRequest(data []byte) (*IngestRequest, error) {
-	_, untypedRecord, err := record.ConsumeEnvelope(data, IngestRequestEnvelopeDomain)
+	envelope, untypedRecord, err := record.ConsumeEnvelope(data, IngestRequestEnvelopeDomain)
 	if err != nil {
 		return nil, fmt.Errorf("cannot consume register request envelope: %s", err)
 	}
@@ -81,5 +82,8 @@ func ReadIngestRequest(data []byte) (*IngestRequest, error) {
 	if !ok {
 		return nil, fmt.Errorf("unmarshaled request is not a *IngestRequest")
 	}
+	if !rec.ProviderID.MatchesPublicKey(envelope.PublicKey) {
+		return nil, errors.New("ingest request not signed by provider")
+	}
 	return rec, nil
 }
diff --git a/api/v0/ingest/model/register_request.go b/api/v0/ingest/model/register_request.go
index 135aff6..b83db15 100644
--- a/api/v0/ingest/model/register_request.go
+++ b/api/v0/ingest/model/register_request.go
@@ -36,7 +36,7 @@ func MakeRegisterRequest(providerID peer.ID, privateKey crypto.PrivKey, addrs []
 // ReadRegisterRequest unmarshals a peer.PeerRequest from bytes, verifies the
 // signature, and returns a peer.PeerRecord
 func ReadRegisterRequest(data []byte) (*peer.PeerRecord, error) {
-	_, untypedRecord, err := record.ConsumeEnvelope(data, peer.PeerRecordEnvelopeDomain)
+	envelope, untypedRecord, err := record.ConsumeEnvelope(data, peer.PeerRecordEnvelopeDomain)
 	if err != nil {
 		return nil, fmt.Errorf("cannot consume register request envelope: %s", err)
 	}
@@ -44,5 +44,8 @@ func ReadRegisterRequest(data []byte) (*peer.PeerRecord, error) {
 	if !ok {
 		return nil, fmt.Errorf("unmarshaled register request record is not a *PeerRecord")
 	}
+	if !rec.PeerID.MatchesPublicKey(envelope.PublicKey) {
+		return nil, errors.New("register request not signed by provider")
+	}
 	return rec, nil
 }
-- 
2.43.0


From 5ace5bab9373f0d641a2ff543ad93345d019ea69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:35 +0000
Subject: [PATCH 06/26] fix: stop an import request whose file cannot be opened

---
 server/admin/http/handler.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/admin/http/handler.go b/server/admin/http/handler.go
index 53d732e..977d3f8 100644
--- a/server/admin/http/handler.go
+++ b/server/admin/http/handler.go
@@ -220,6 +220,7 @@ func (h *adminHandler) importManifest(w http.ResponseWriter, r *http.Request) {
 	if err != nil {
 		log.Errorw("Cannot open cidlist file", "err", err)
 		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
 	}
 	defer file.Close()
 
@@ -305,6 +306,7 @@ func (h *adminHandler) importCidList(w http.ResponseWriter, r *http.Request) {
 	if err != nil {
 		log.Errorw("Cannot open cidlist file", "err", err)
 		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
 	}
 	defer file.Close()
 
-- 
2.43.0


From 6fcdff9d3e3721fb94eaf6f007a6b64ec627f855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:35 +0000
Subject: [PATCH 07/26] fix: send the JSON response headers before the status
 line is written

---
 internal/httpserver/util.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/httpserver/util.go b/internal/httpserver/util.go
index 295ea44..69b6c55 100644
--- a/internal/httpserver/util.go
+++ b/internal/httpserver/util.go
@@ -13,14 +13,13 @@ import (
 var log = logging.Logger("indexer/http")
 
 func WriteJsonResponse(w http.ResponseWriter, status int, body []byte) {
-	w.WriteHeader(status)
 	w.Header().Set("Content-Type", "application/json; charset=utf-8")
 	w.Header().Set("Cache-Control", "no-cache")
 	w.Header().Set("Access-Control-Allow-Origin", "*")
+	w.WriteHeader(status)
 
 	if _, err := w.Write(body); err != nil {
 		log.Errorw("cannot write response", "err", err)
-		http.Error(w, "", http.StatusInternalServerError)
 	}
 }
 
-- 
2.43.0


From 242818d85166ca671d6159e6983fdbc159fb4dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:35 +0000
Subject: [PATCH 08/26] fix: read the batch size atomically, as it can be
 changed while ingesting

---
 internal/ingest/linksystem.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/ingest/linksystem.go b/internal/ingest/linksystem.go
index abbcfb2..415ea8d 100644
--- a/internal/ingest/linksystem.go
+++ b/internal/ingest/linksystem.go
@@ -289,7 +289,7 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 			// the HAMT, instead of loading all the multihashes in the HAMT then batch them later in
 			// indexContentBlock.
 			// TODO: See how we can refactor code to make batching logic more flexible in indexContentBlock.
-			if len(mhs) >= int(ing.batchSize) {
+			if len(mhs) >= ing.BatchSize() {
 				err := ing.indexAdMultihashes(ad, mhs, log)
 				if err != nil {
 					return adIngestError{adIngestIndexerErr, fmt.Errorf("failed to index content from HAMT: %w", err)}
@@ -416,7 +416,8 @@ func (ing *Ingester) indexAdMultihashes(ad schema.Advertisement, mhs []multihash
 		}
 	}()
 
-	batch := make([]multihash.Multihash, 0, ing.batchSize)
+	batchSize := ing.BatchSize()
+	batch := make([]multihash.Multihash, 0, batchSize)
 	var prevBatch []multihash.Multihash
 
 	// Iterate over all entries and ingest (or remove) them.
@@ -442,7 +443,7 @@ func (ing *Ingester) indexAdMultihashes(ad schema.Advertisement, mhs []multihash
 			}
 			count += len(batch)
 			if prevBatch == nil {
-				prevBatch = make([]multihash.Multihash, 0, ing.batchSize)
+				prevBatch = make([]multihash.Multihash, 0, batchSize)
 			}
 			// Since batchChan is unbuffered, the goroutine is done reading the previous batch.
 			prevBatch, batch = batch, prevBatch
-- 
2.43.0


From 0b42db0d2b340aec1d44725ed569804e175ce969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:00 +0000
Subject: [PATCH 09/26] fix: do not drop an advertisement when the indexer
 fails to store its entries

---
 internal/ingest/linksystem.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/ingest/linksystem.go b/internal/ingest/linksystem.go
index 415ea8d..714dca2 100644
--- a/internal/ingest/linksystem.go
+++ b/internal/ingest/linksystem.go
@@ -224,6 +224,9 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 	}
 
 	var errsIngestingEntryChunks []error
+	// indexErr is a failure to store multihashes in the indexer. Unlike a bad
+	// entry chunk this is not permanent, so the ad must not be skipped.
+	var indexErr error
 	if isHAMT(node) {
 		log = log.With("entriesKind", "hamt")
 		// Keep track of all CIDs in the HAMT to remove them later when the processing is done.
@@ -314,7 +317,7 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 		} else {
 			err = ing.ingestEntryChunk(ctx, ad, syncedFirstEntryCid, *chunk, log)
 			if err != nil {
-				errsIngestingEntryChunks = append(errsIngestingEntryChunks, err)
+				return adIngestError{adIngestIndexerErr, fmt.Errorf("failed to index entry chunk: %w", err)}
 			}
 		}
 
@@ -332,7 +335,7 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 				err = ing.ingestEntryChunk(ctx, ad, c, *chunk, log)
 				if err != nil {
 					actions.FailSync(err)
-					errsIngestingEntryChunks = append(errsIngestingEntryChunks, err)
+					indexErr = err
 					return
 				}
 				if chunk.Next != nil {
@@ -341,6 +344,9 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 					actions.SetNextSyncCid(cid.Undef)
 				}
 			}))
+			if indexErr != nil {
+				return adIngestError{adIngestIndexerErr, fmt.Errorf("failed to index entry chunk: %w", indexErr)}
+			}
 			if err != nil {
 				if strings.Contains(err.Error(), "datatransfer failed: content not found") {
 					return adIngestError{adIngestContentNotFound, fmt.Errorf("failed to sync entries: %w", err)}
-- 
2.43.0


From 62883143ce8281aea8acd5a37430a43b54109a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:21 +0000
Subject: [PATCH 10/26] fix: enforce the context ID and metadata size limits on
 advertisements

---
 internal/ingest/linksystem.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/ingest/linksystem.go b/internal/ingest/linksystem.go
index 714dca2..8b97763 100644
--- a/internal/ingest/linksystem.go
+++ b/internal/ingest/linksystem.go
@@ -177,6 +177,11 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 		return nil
 	}
 
+	// Do not index content with an oversized context ID or metadata.
+	if err = ad.Validate(); err != nil {
+		return adIngestError{adIngestMalformedErr, fmt.Errorf("invalid advertisement: %w", err)}
+	}
+
 	// If advertisement has no entries, then this is for updating metadata only.
 	if ad.Entries == schema.NoEntries {
 		// If this is a metadata update only, then ad will not have entries.
-- 
2.43.0


From 1ebfc86d0a3845dd62367b4ef878efe0802396d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:47 +0000
Subject: [PATCH 11/26] fix: a sync that stops waiting must not block the
 distribution of ad events

---
 internal/ingest/ingest.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 66e272d..42872e5 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -550,6 +550,12 @@ func (ing *Ingester) onAdProcessed(peerID peer.ID) (<-chan adProcessedEvent, con
 	ing.outEventsChans[peerID] = append(outEventsChans, ch)
 
 	cncl := func() {
+		// Drain the channel to prevent deadlock, in case distributeEvents is
+		// blocked writing to this channel while holding the mutex.
+		go func() {
+			for range ch {
+			}
+		}()
 		ing.outEventsMutex.Lock()
 		defer ing.outEventsMutex.Unlock()
 		outEventsChans, ok := ing.outEventsChans[peerID]
@@ -569,9 +575,9 @@ func (ing *Ingester) onAdProcessed(peerID peer.ID) (<-chan adProcessedEvent, con
 					outEventsChans[i] = outEventsChans[len(outEventsChans)-1]
 					outEventsChans[len(outEventsChans)-1] = nil
 					outEventsChans = outEventsChans[:len(outEventsChans)-1]
-					close(ch)
 					ing.outEventsChans[peerID] = outEventsChans
 				}
+				close(ch)
 				break
 			}
 		}
-- 
2.43.0


From 94f18b71e1ccef332108c11ed5307d49a879b21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:47 +0000
Subject: [PATCH 12/26] fix: close the response body when a find request fails

---
 api/v0/finder/client/http/client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/api/v0/finder/client/http/client.go b/api/v0/finder/client/http/client.go
index 203034e..b895ebc 100644
--- a/api/v0/finder/client/http/client.go
+++ b/api/v0/finder/client/http/client.go
@@ -164,6 +164,8 @@ func (c *Client) sendRequest(req *http.Request) (*model.FindResponse, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
+
 	// Handle failed requests
 	if resp.StatusCode != http.StatusOK {
 		if resp.StatusCode == http.StatusNotFound {
@@ -172,7 +174,6 @@ func (c *Client) sendRequest(req *http.Request) (*model.FindResponse, error) {
 		return nil, fmt.Errorf("batch find query failed: %v", http.StatusText(resp.StatusCode))
 	}
 
-	defer resp.Body.Close()
 	b, err := io.ReadAll(resp.Body)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 095606a2c5b2fef8fd87c5c23ea6883763f7e70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:47 +0000
Subject: [PATCH 13/26] fix: import version 0 CIDs and the last line of a CID
 list

---
 internal/importer/cidlist.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/importer/cidlist.go b/internal/importer/cidlist.go
index 0bae227..eba1186 100644
--- a/internal/importer/cidlist.go
+++ b/internal/importer/cidlist.go
@@ -5,6 +5,7 @@ import (
 	"context"
 	"errors"
 	"io"
+	"strings"
 
 	"github.com/ipfs/go-cid"
 	logging "github.com/ipfs/go-log/v2"
@@ -23,14 +24,18 @@ func ReadCids(ctx context.Context, in io.Reader, out chan<- multihash.Multihash,
 
 	var badEntryCount, entryCount int
 	r := bufio.NewReader(in)
-	for {
+	for eof := false; !eof; {
 		line, err := r.ReadString('\n')
 		if err != nil {
 			if err != io.EOF {
 				done <- err
 				return
 			}
-			break
+			eof = true
+		}
+		line = strings.TrimSpace(line)
+		if line == "" {
+			continue
 		}
 		c, err := cid.Decode(line)
 		if err != nil || !c.Defined() {
-- 
2.43.0


From 34cc1272b8d873c099592f4f1dc1341235f3a631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:47 +0000
Subject: [PATCH 14/26] fix: report at most one error from reading a manifest

---
 internal/importer/manifest.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/importer/manifest.go b/internal/importer/manifest.go
index 3cad696..26018e9 100644
--- a/internal/importer/manifest.go
+++ b/internal/importer/manifest.go
@@ -71,6 +71,7 @@ func ReadManifest(ctx context.Context, in io.Reader, out chan<- multihash.Multih
 
 	if err := scanner.Err(); err != nil {
 		errOut <- err
+		return
 	}
 	if badEntryCount != 0 {
 		log.Errorf("Skipped %d bad manifest entries", badEntryCount)
-- 
2.43.0


From 71f3322587402c7a7fa6a6ed798e418051e07d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:47 +0000
Subject: [PATCH 15/26] fix: never forget a sequence number that would still be
 accepted

---
 internal/registry/sequences.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/registry/sequences.go b/internal/registry/sequences.go
index 88d8097..cd82d36 100644
--- a/internal/registry/sequences.go
+++ b/internal/registry/sequences.go
@@ -27,14 +27,14 @@ func newSequences(maxAge time.Duration) *sequences {
 }
 
 func (s *sequences) check(id peer.ID, sequence uint64) error {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+
 	oldestAllowed := uint64(time.Now().Add(-s.maxAge).UnixNano())
 	if sequence < oldestAllowed {
 		return errors.New("sequence too small")
 	}
 
-	s.mutex.Lock()
-	defer s.mutex.Unlock()
-
 	prevSeq, ok := s.seqs[id]
 	if ok && sequence <= prevSeq {
 		return errors.New("sequence less than or equal to last seen")
@@ -44,14 +44,14 @@ func (s *sequences) check(id peer.ID, sequence uint64) error {
 }
 
 func (s *sequences) retire() {
-	oldestAllowed := uint64(time.Now().Add(-s.maxAge).UnixNano())
 	active := make(map[peer.ID]uint64)
 
 	s.mutex.Lock()
 	defer s.mutex.Unlock()
 
+	oldestAllowed := uint64(time.Now().Add(-s.maxAge).UnixNano())
 	for id, seq := range s.seqs {
-		if seq > oldestAllowed {
+		if seq >= oldestAllowed {
 			active[id] = seq
 		}
 	}
-- 
2.43.0


From 319430d5d7ae5bdee3b7da830b6622f67e8b40e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:47 +0000
Subject: [PATCH 16/26] fix: a discover request must not crash an indexer
 configured without discovery

---
 command/daemon.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/command/daemon.go b/command/daemon.go
index 09ff055..e9a8fec 100644
--- a/command/daemon.go
+++ b/command/daemon.go
@@ -20,6 +20,7 @@ import (
 	"github.com/filecoin-project/storetheindex/internal/ingest"
 	"github.com/filecoin-project/storetheindex/internal/lotus"
 	"github.com/filecoin-project/storetheindex/internal/registry"
+	"github.com/filecoin-project/storetheindex/internal/registry/discovery"
 	httpadminserver "github.com/filecoin-project/storetheindex/server/admin/http"
 	httpfinderserver "github.com/filecoin-project/storetheindex/server/finder/http"
 	p2pfinderserver "github.com/filecoin-project/storetheindex/server/finder/libp2p"
@@ -119,7 +120,7 @@ func daemonCommand(cctx *cli.Context) error {
 		return err
 	}
 
-	var lotusDiscoverer *lotus.Discoverer
+	var lotusDiscoverer discovery.Discoverer
 	if cfg.Discovery.LotusGateway != "none" {
 		log.Infow("discovery using lotus", "gateway", cfg.Discovery.LotusGateway)
 		// Create lotus client
-- 
2.43.0


From 5f80bb8af1dda535541daf939818c8aef587a059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:47 +0000
Subject: [PATCH 17/26] fix: keep the running configuration when a reload fails

---
 command/daemon.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/command/daemon.go b/command/daemon.go
index e9a8fec..71b2a0d 100644
--- a/command/daemon.go
+++ b/command/daemon.go
@@ -334,29 +334,31 @@ func daemonCommand(cctx *cli.Context) error {
 		case <-reloadSig:
 			reloadErrsChan <- nil
 		case errChan := <-reloadErrsChan:
-			prevCfgChk := cfg.Indexer.ConfigCheckInterval
-			if prevCfgChk != cfg.Indexer.ConfigCheckInterval {
-				ticker.Reset(time.Duration(cfg.Indexer.ConfigCheckInterval))
-			}
-
-			cfg, err = reloadConfig(cfgPath, ingester, reg)
+			newCfg, err := reloadConfig(cfgPath, ingester, reg)
 			if err != nil {
 				log.Errorw("Error reloading conifg", "err", err)
 				if errChan != nil {
 					errChan <- errors.New("could not reload configuration")
-					continue
 				}
+				continue
+			}
+
+			prevCfgChk := cfg.Indexer.ConfigCheckInterval
+			cfg = newCfg
+			if ticker != nil && prevCfgChk != cfg.Indexer.ConfigCheckInterval {
+				ticker.Reset(time.Duration(cfg.Indexer.ConfigCheckInterval))
 			}
 
 			if p2pHost != nil {
-				peeringService, err = reloadPeering(cfg.Peering, peeringService, p2pHost)
+				newPeering, err := reloadPeering(cfg.Peering, peeringService, p2pHost)
 				if err != nil {
 					log.Errorw("Error reloading peering service", "err", err)
 					if errChan != nil {
 						errChan <- errors.New("could not reload peering service")
-						continue
 					}
+					continue
 				}
+				peeringService = newPeering
 			}
 
 			if errChan != nil {
-- 
2.43.0


From d4944d4bc44623cdf3190c01ee3d7e65cc85c9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:47 +0000
Subject: [PATCH 18/26] fix: do not block the daemon when a reload is already
 pending

---
 command/daemon.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/command/daemon.go b/command/daemon.go
index 71b2a0d..44d8af3 100644
--- a/command/daemon.go
+++ b/command/daemon.go
@@ -332,7 +332,10 @@ func daemonCommand(cctx *cli.Context) error {
 			finalErr = ErrDaemonStart
 			endDaemon = true
 		case <-reloadSig:
-			reloadErrsChan <- nil
+			select {
+			case reloadErrsChan <- nil:
+			default: // a reload is already pending
+			}
 		case errChan := <-reloadErrsChan:
 			newCfg, err := reloadConfig(cfgPath, ingester, reg)
 			if err != nil {
@@ -376,7 +379,10 @@ func daemonCommand(cctx *cli.Context) error {
 			}
 			statErr = nil
 			if changed {
-				reloadErrsChan <- nil
+				select {
+				case reloadErrsChan <- nil:
+				default: // a reload is already pending
+				}
 			}
 		}
 	}
-- 
2.43.0


From 526e1bc258769cf04b11b659bc371be92937b003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:04 +0000
Subject: [PATCH 19/26] fix: do not lose the removal of an unresponsive
 provider when the sync channel is full

---
 internal/registry/registry.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 81b314d..79ee617 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -849,15 +849,24 @@ func (r *Registry) pollProviders(poll polling, pollOverrides map[peer.ID]polling
 			if sincePollingStarted >= poll.stopAfter {
 				// Too much time since last contact.
 				log.Warnw("Lost contact with provider, too long with no updates", "publisher", info.Publisher, "provider", info.AddrInfo.ID, "since", info.lastContactTime)
+				// Tell the ingester to remove data for the provider. If this is
+				// not possible now, then keep the provider and try again at
+				// the next poll, otherwise the ingester is never told.
+				removed := *info
+				removed.deleted = true
+				select {
+				case r.syncChan <- &removed:
+				default:
+					log.Debugw("Sync channel blocked, not removing provider yet", "provider", info.AddrInfo.ID)
+					continue
+				}
 				// Remove the dead provider from the registry.
 				if err := r.syncRemoveProvider(context.Background(), peerID); err != nil {
 					log.Errorw("Failed to update deleted provider info", "err", err)
 				}
-				// Tell the ingester to remove data for the provider.
-				removed := *info
-				removed.deleted = true
-				info = &removed
-			} else if sincePollingStarted >= 2*poll.retryAfter {
+				continue
+			}
+			if sincePollingStarted >= 2*poll.retryAfter {
 				// Still polling after at least one retry, so mark inactive.
 				// This will exclude the provider from find responses.
 				updated := *info
-- 
2.43.0


From 4de8b4b9719d8027b435da15e9e0a54320708af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:18 +0000
Subject: [PATCH 20/26] fix: report an error response without a message as an
 error in libp2p clients

---
 api/v0/finder/client/libp2p/client.go | 7 ++++++-
 api/v0/ingest/client/libp2p/client.go | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/api/v0/finder/client/libp2p/client.go b/api/v0/finder/client/libp2p/client.go
index aaf4742..e9d8f08 100644
--- a/api/v0/finder/client/libp2p/client.go
+++ b/api/v0/finder/client/libp2p/client.go
@@ -3,6 +3,7 @@ package finderp2pclient
 import (
 	"context"
 	"encoding/json"
+	"errors"
 	"fmt"
 
 	"github.com/filecoin-project/storetheindex/api/v0"
@@ -132,7 +133,11 @@ func (c *Client) sendRecv(ctx context.Context, req *pb.FinderMessage, expectRspT
 	}
 	if resp.GetType() != expectRspType {
 		if resp.GetType() == pb.FinderMessage_ERROR_RESPONSE {
-			return nil, v0.DecodeError(resp.GetData())
+			err = v0.DecodeError(resp.GetData())
+			if err == nil {
+				err = errors.New("indexer returned an unspecified error")
+			}
+			return nil, err
 		}
 		return nil, fmt.Errorf("response type is not %s", expectRspType.String())
 	}
diff --git a/api/v0/ingest/client/libp2p/client.go b/api/v0/ingest/client/libp2p/client.go
index 7c99225..03cd2b1 100644
--- a/api/v0/ingest/client/libp2p/client.go
+++ b/api/v0/ingest/client/libp2p/client.go
@@ -2,6 +2,7 @@ package p2pclient
 
 import (
 	"context"
+	"errors"
 	"fmt"
 
 	v0 "github.com/filecoin-project/storetheindex/api/v0"
@@ -94,7 +95,11 @@ func (c *Client) sendRecv(ctx context.Context, req *pb.IngestMessage, expectRspT
 	}
 	if resp.GetType() != expectRspType {
 		if resp.GetType() == pb.IngestMessage_ERROR_RESPONSE {
-			return nil, v0.DecodeError(resp.GetData())
+			err = v0.DecodeError(resp.GetData())
+			if err == nil {
+				err = errors.New("indexer returned an unspecified error")
+			}
+			return nil, err
 		}
 		return nil, fmt.Errorf("response type is not %s", expectRspType.String())
 	}
-- 
2.43.0


From 17d68565d54aa67c5d9794017bfa271bd7947576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:54 +0000
Subject: [PATCH 21/26] fix: a sync that is still fetching must not block the
 distribution of ad events

---
 internal/ingest/ingest.go | 41 ++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 42872e5..f1a267b 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -535,9 +535,13 @@ func (ing *Ingester) distributeEvents() {
 // the list of channels to be notified on changes, and closes the channel to
 // allow any reading goroutines to stop waiting on the channel.
 func (ing *Ingester) onAdProcessed(peerID peer.ID) (<-chan adProcessedEvent, context.CancelFunc) {
-	// Channel is buffered to prevent distribute() from blocking if a reader is
-	// not reading the channel immediately.
+	// Events are read from ch, and kept until the reader is ready for them, so
+	// that a reader that is not reading, such as a Sync call that is fetching
+	// advertisements, never blocks distributeEvents.
 	ch := make(chan adProcessedEvent, 1)
+	out := make(chan adProcessedEvent)
+	go forwardEvents(ch, out)
+
 	ing.outEventsMutex.Lock()
 	defer ing.outEventsMutex.Unlock()
 
@@ -550,12 +554,6 @@ func (ing *Ingester) onAdProcessed(peerID peer.ID) (<-chan adProcessedEvent, con
 	ing.outEventsChans[peerID] = append(outEventsChans, ch)
 
 	cncl := func() {
-		// Drain the channel to prevent deadlock, in case distributeEvents is
-		// blocked writing to this channel while holding the mutex.
-		go func() {
-			for range ch {
-			}
-		}()
 		ing.outEventsMutex.Lock()
 		defer ing.outEventsMutex.Unlock()
 		outEventsChans, ok := ing.outEventsChans[peerID]
@@ -582,7 +580,32 @@ func (ing *Ingester) onAdProcessed(peerID peer.ID) (<-chan adProcessedEvent, con
 			}
 		}
 	}
-	return ch, cncl
+	return out, cncl
+}
+
+// forwardEvents forwards events, until the in channel is closed, and then
+// closes the out channel. It always receives from the in channel, no matter
+// if there is a reader for the out channel.
+func forwardEvents(in <-chan adProcessedEvent, out chan<- adProcessedEvent) {
+	defer close(out)
+
+	var pending []adProcessedEvent
+	for {
+		var next adProcessedEvent
+		var ready chan<- adProcessedEvent
+		if len(pending) != 0 {
+			next, ready = pending[0], out
+		}
+		select {
+		case event, ok := <-in:
+			if !ok {
+				return
+			}
+			pending = append(pending, event)
+		case ready <- next:
+			pending = pending[1:]
+		}
+	}
 }
 
 // signalMetricsUpdate signals that metrics should be updated.
-- 
2.43.0


From 510871b7204088e588f595c26d53f872c93a85e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:14 +0000
Subject: [PATCH 22/26] fix: hold the policy lock while checking if any peers
 are allowed

---
 internal/registry/policy/policy.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/registry/policy/policy.go b/internal/registry/policy/policy.go
index 6189833..939bc9a 100644
--- a/internal/registry/policy/policy.go
+++ b/internal/registry/policy/policy.go
@@ -94,5 +94,7 @@ func (p *Policy) ToConfig() config.Policy {
 
 // Return true if no peers are allowed.
 func (p *Policy) NoneAllowed() bool {
+	p.rwmutex.RLock()
+	defer p.rwmutex.RUnlock()
 	return !p.allow.Any(true)
 }
-- 
2.43.0


From b3c99400eeb40772c27e7fd53f8aee51f7276bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:30 +0000
Subject: [PATCH 23/26] fix: wait for notifications about imported providers
 before closing the sync channel

---
 internal/registry/registry.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 79ee617..8a3ca17 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -273,17 +273,18 @@ running:
 		}
 	}
 
-	// Check that pollProviders is finished and close sync channel.
+	// Check that pollProviders is finished.
 	done := make(chan struct{})
 	r.actions <- func() {
 		close(done)
 	}
 	<-done
-	close(r.syncChan)
 
-	// Wait for any pending discoveries to complete, then stop the main run
+	// Wait for any pending discoveries, and notifications about imported
+	// providers, to complete. Then close sync channel and stop the main run
 	// goroutine.
 	r.discoverWait.Wait()
+	close(r.syncChan)
 	close(r.actions)
 }
 
@@ -601,7 +602,9 @@ func (r *Registry) ImportProviders(ctx context.Context, fromURL *url.URL) (int,
 	log.Infow("Imported new providers from other indexer", "from", fromURL.String(), "count", len(newProvs))
 
 	// Start gorouting to sync with all the new providers.
+	r.discoverWait.Add(1)
 	go func() {
+		defer r.discoverWait.Done()
 		for _, pinfo := range newProvs {
 			select {
 			case r.syncChan <- pinfo:
-- 
2.43.0


From a16fac64ade11cacb84cffd097c64ed49e2b212f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:28 +0000
Subject: [PATCH 24/26] fix: a config reload request that is pending at
 shutdown must not block the shutdown

---
 server/admin/http/handler.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/server/admin/http/handler.go b/server/admin/http/handler.go
index 977d3f8..1301466 100644
--- a/server/admin/http/handler.go
+++ b/server/admin/http/handler.go
@@ -181,9 +181,18 @@ func (h *adminHandler) importProviders(w http.ResponseWriter, r *http.Request) {
 }
 
 func (h *adminHandler) reloadConfig(w http.ResponseWriter, r *http.Request) {
-	errChan := make(chan error)
-	h.reloadErrChan <- errChan
-	err := <-errChan
+	errChan := make(chan error, 1)
+	var err error
+	select {
+	case h.reloadErrChan <- errChan:
+		select {
+		case err = <-errChan:
+		case <-h.ctx.Done():
+			err = h.ctx.Err()
+		}
+	case <-h.ctx.Done():
+		err = h.ctx.Err()
+	}
 	if err != nil {
 		http.Error(w, err.Error(), http.StatusInternalServerError)
 		return
-- 
2.43.0


From a2978db9af72c98150ed8aa69d11d4682cca49c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:47 +0000
Subject: [PATCH 25/26] fix: setting the admin address to "none" disables the
 admin server, as documented

---
 command/daemon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/command/daemon.go b/command/daemon.go
index 44d8af3..b1ad654 100644
--- a/command/daemon.go
+++ b/command/daemon.go
@@ -252,7 +252,7 @@ func daemonCommand(cctx *cli.Context) error {
 
 	// Create admin HTTP server
 	var adminSvr *httpadminserver.Server
-	if cfg.Addresses.Admin != "" && !cctx.Bool("noadmin") {
+	if cfg.Addresses.Admin != "none" && !cctx.Bool("noadmin") {
 		maddr, err := multiaddr.NewMultiaddr(cfg.Addresses.Admin)
 		if err != nil {
 			return fmt.Errorf("bad admin address in config %s: %s", cfg.Addresses.Admin, err)
-- 
2.43.0


From 030856b655516cb52ba5f07d725716b9b565f441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:00 +0000
Subject: [PATCH 26/26] fix: do not crash without an ingester when libp2p is
 disabled

---
 server/admin/http/handler.go            | 8 ++++++++
 server/admin/http/server.go             | 3 ---
 server/ingest/handler/ingest_handler.go | 4 ++++
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/server/admin/http/handler.go b/server/admin/http/handler.go
index 1301466..ee8d55a 100644
--- a/server/admin/http/handler.go
+++ b/server/admin/http/handler.go
@@ -126,6 +126,14 @@ func (h *adminHandler) sync(w http.ResponseWriter, r *http.Request) {
 		log = log.With("address", syncAddr)
 	}
 
+	// There is no ingester if libp2p is disabled.
+	if h.ingester == nil {
+		msg := "Cannot sync with peer: ingestion is disabled"
+		log.Error(msg)
+		http.Error(w, msg, http.StatusServiceUnavailable)
+		return
+	}
+
 	log.Info("Syncing with peer")
 
 	// Start the sync, but do not wait for it to complete.
diff --git a/server/admin/http/server.go b/server/admin/http/server.go
index c62f680..cb5f8b8 100644
--- a/server/admin/http/server.go
+++ b/server/admin/http/server.go
@@ -24,9 +24,6 @@ type Server struct {
 }
 
 func New(listen string, indexer indexer.Interface, ingester *ingest.Ingester, reg *registry.Registry, reloadErrChan chan<- chan error, options ...ServerOption) (*Server, error) {
-	if ingester == nil {
-		panic("ingester cannot be nil")
-	}
 	var cfg serverConfig
 	if err := cfg.apply(append([]ServerOption{serverDefaults}, options...)...); err != nil {
 		return nil, err
diff --git a/server/ingest/handler/ingest_handler.go b/server/ingest/handler/ingest_handler.go
index 5cba4d6..acc4c56 100644
--- a/server/ingest/handler/ingest_handler.go
+++ b/server/ingest/handler/ingest_handler.go
@@ -144,6 +144,10 @@ func (h *IngestHandler) Announce(r io.Reader) error {
 		err = fmt.Errorf("announce requests not allowed from peer %s", addrInfo.ID)
 		return v0.NewError(err, http.StatusForbidden)
 	}
+	// There is no ingester if libp2p is disabled.
+	if h.ingester == nil {
+		return v0.NewError(errors.New("ingestion is disabled"), http.StatusServiceUnavailable)
+	}
 	cur, err := h.ingester.GetLatestSync(addrInfo.ID)
 	if err == nil {
 		if cur.Equals(an.Cid) {
-- 
2.43.0

