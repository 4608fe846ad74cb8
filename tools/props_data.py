def P(id, title, statement, over, text, why, files, mech, technique, note):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), technique=technique, note=note)

def N(id, title, statement, over, text, why, files, mech, reason):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), reason=reason)

BASE = 'Sound over all paths of the analysed functions up to the value-numbering abstraction; dependencies (libp2p, go-legs, datastores, the index engine) are trusted to behave as documented. '
PS = 'path-sensitive typestate/dataflow analysis over SSA with inlining'

PROPS = [
P('A01', 'Only authentic advertisements are stored',
  'A fetched block that carries an advertisement is written to the indexer\'s datastore only if its signature verifies over that very block and the signer is the advertised provider or a peer the policy permits to publish for that provider. A block that fails this is rejected with an error and is never stored, and whatever is stored is stored unmodified under its own content identifier.',
  ['inputs', 'programs'], 'every block any peer may serve during a sync, every policy',
  'Tests feed a handful of well- and ill-signed advertisements; they cannot enumerate every path a block can take to the datastore.',
  ['internal/ingest/linksystem.go', 'api/v0/ingest/schema/envelope.go'],
  [('verifying block committer', 'internal/ingest/linksystem.go mkLinkSystem/verifyAdvertisement'), ('link system handed to the subscriber', 'internal/ingest/ingest.go NewIngester')],
  PS, BASE + 'Decides the gate before each datastore write and who else writes blocks; cryptographic strength is assumed.'),
P('A02', 'An advertisement signature covers its content',
  'Verifying an advertisement succeeds only if the signed digest equals, in full, the digest recomputed from the advertisement, and the signer reported is the owner of the key that made the signature. The digest depends on every content field of the advertisement - link to the previous one, entries, provider, addresses, metadata, removal flag and context ID - both when signing and when verifying.',
  ['inputs'], 'every advertisement and every alteration of one of its fields',
  'A test alters a few fields of a few advertisements; the claim is about each field on each path.',
  ['api/v0/ingest/schema/envelope.go', 'api/v0/ingest/schema/types.go'],
  [('digest computation', 'api/v0/ingest/schema/envelope.go signatureInput'), ('verification', 'api/v0/ingest/schema/envelope.go VerifySignature')],
  'field-coverage dataflow from struct fields into the hash, all paths', BASE + 'Known finding: the context ID is not covered (fixing it would invalidate every published signature).'),
P('A03', 'Direct requests act only for the peer that signed them',
  'A register, index-content or discover request is accepted only if its envelope\'s signature verifies under the signing domain of that request kind and the key that signed it belongs to the provider the request names. Request kinds never share a signing domain, and what an accepted request changes is changed only for the provider named in the verified request.',
  ['inputs', 'programs'], 'every request byte string, signed by any key for any domain',
  'Tests build correctly signed requests and one or two bad ones; forged combinations of domain, signer and named provider are unbounded.',
  ['api/v0/ingest/model/discover_request.go', 'api/v0/ingest/model/ingest_request.go', 'api/v0/ingest/model/register_request.go', 'server/ingest/handler/ingest_handler.go'],
  [('request readers', 'api/v0/ingest/model Read*Request'), ('handlers', 'server/ingest/handler/ingest_handler.go')],
  PS, BASE + 'Envelope verification itself is libp2p\'s.'),
P('A04', 'A request cannot be replayed',
  'A register, index-content or discover request takes effect at most once: only after its sequence number was found, atomically for its provider, to be within the age limit and greater than every number accepted before, and was remembered. A remembered number is forgotten only when it has become too old to be accepted again.',
  ['histories', 'schedules', 'inputs'], 'every history of requests, concurrent requests and clean-ups',
  'Replay needs particular interleavings of requests and clean-up times that tests with fixed sequence numbers do not produce.',
  ['internal/registry/sequences.go', 'server/ingest/handler/ingest_handler.go'],
  [('sequence check and clean-up', 'internal/registry/sequences.go'), ('gating in the handlers', 'server/ingest/handler/ingest_handler.go')],
  'typestate and critical-section analysis, all paths', BASE + 'The clock is assumed not to run backwards.'),
P('A05', 'Only permitted providers and publishers are registered and indexed',
  'A provider is added to the registry only if the policy allows it, and a publisher other than the provider is recorded only if it is allowed and permitted to publish for that provider; an already registered entry may be refreshed. Provider entries read back at start-up are subject to the same policy. The index is changed, by an advertisement or a direct request, only for a provider whose registration succeeded first, and discovery never yields an identity other than the one asked for.',
  ['inputs', 'programs', 'histories'], 'every advertisement, request, stored registry and policy',
  'Tests try a few policies and providers; the guarantee concerns each way an entry can get into the registry or the index.',
  ['internal/registry/registry.go', 'internal/ingest/linksystem.go', 'server/ingest/handler/ingest_handler.go', 'internal/lotus/discovery.go'],
  [('registration', 'internal/registry/registry.go RegisterOrUpdate/Register/Discover/loadPersistedProviders'), ('ingestion gate', 'internal/ingest/linksystem.go ingestAd')],
  PS, BASE + 'The check that an entry is already registered and its refresh are not atomic with a concurrent removal.'),
P('A06', 'Announcements are admitted only from allowed peers',
  'A pubsub announcement is admitted exactly if the policy allows the announcing peer, and a direct announcement is acted on only if all its addresses name one peer and the policy allows that peer. What is then announced, at once or after having been deferred, is the CID, peer and addresses of that same announcement.',
  ['inputs', 'histories'], 'every announcement message and every policy, announced while idle or busy',
  'Tests announce from one allowed or one blocked peer; message shapes, policies and the deferred path are unbounded.',
  ['internal/ingest/ingest.go', 'server/ingest/handler/ingest_handler.go'],
  [('announce filter', 'internal/ingest/ingest.go NewIngester'), ('direct announcements', 'server/ingest/handler/ingest_handler.go Announce'), ('deferred announcements', 'internal/ingest/ingest.go Announce/handlePendingAnnounce')],
  PS, BASE + 'go-legs applies the filter it is given.'),
P('A07', 'Policies mean what they are configured to mean',
  'A policy answers its default for every peer and the opposite for exactly the excepted peers; the allow and the publish policy come from their own configuration values, and a peer may always publish for itself. Allow and Block make the policy answer accordingly for that peer and change no other peer\'s answer, also through the admin API. Policies are read and altered only under the policy\'s lock.',
  ['inputs', 'histories', 'schedules'], 'every configuration and every history of alterations and queries',
  'Tests evaluate a few peers under a few policies and do not vary histories of alterations.',
  ['peerutil/policy.go', 'internal/registry/policy/policy.go', 'server/admin/http/handler.go'],
  [('policy', 'peerutil/policy.go'), ('registry policy', 'internal/registry/policy/policy.go'), ('admin routes', 'server/admin/http')],
  'symbolic evaluation of all paths against the policy definition; critical-section analysis', BASE),
P('I01', 'An advertisement counts as processed only if its effect is in the index',
  'An advertisement is marked processed only after its own ingestion succeeded or failed with an error classed as permanent, or because a newer advertisement of the same provider removes the same context ID. Ingesting an advertisement reports success, or a permanent error, only if no registration, index write or fetch of entries failed on the way.',
  ['inputs', 'histories'], 'every advertisement chain and every failure of an index write, registration or fetch at any point',
  'A fault can hit any of the writes or fetches of an arbitrarily long chain; tests inject at most a few.',
  ['internal/ingest/ingest.go', 'internal/ingest/linksystem.go'],
  [('worker', 'internal/ingest/ingest.go ingestWorkerLogic'), ('ingestion', 'internal/ingest/linksystem.go ingestAd/ingestEntryChunk/indexAdMultihashes')],
  PS, BASE + 'A failed datastore read of an entry chunk that was just fetched is indistinguishable from a malformed chunk and stays permanent; entries reported missing by the publisher are permanent by design.'),
P('I02', 'Advertisements take effect in chain order',
  'Of the advertisements fetched in a sync, each provider\'s are handed on in the order fetched, without gaps, down to the newest one already processed, and worked through from the oldest to the newest. Each one is ingested at most once per pass and marked before the next; after one fails nothing newer is ingested or marked. A sync follows each advertisement\'s link to the previous one until there is none.',
  ['inputs', 'histories'], 'every advertisement chain, any number of providers on it, any point of failure',
  'Order and gap errors show only for particular chain shapes, failure points and processed prefixes.',
  ['internal/ingest/ingest.go'],
  [('staging', 'internal/ingest/ingest.go runIngestStep'), ('worker', 'internal/ingest/ingest.go ingestWorkerLogic'), ('block hook', 'internal/ingest/ingest.go generalLegsBlockHook')],
  PS + '; affine analysis of loop positions', BASE + 'An advertisement that cannot be loaded or names no valid provider is left out. Several providers on one chain share one sync pointer.'),
P('I03', 'The sync pointer never runs ahead of what was processed',
  'The pointer to the latest synced advertisement of a publisher is moved to an advertisement only after that advertisement\'s processed marker was stored, and then always; nothing else writes it, except that removing a provider removes the pointer of that provider\'s publisher. An advertisement counts as processed exactly if its marker reads back as processed, its block is removed only after the marker was stored, and GetLatestSync returns the stored pointer, none if there is none, or an error. At start-up the fetching side is given exactly the stored pointers and cannot move them.',
  ['histories', 'inputs'], 'every history of syncs, failures, restarts and provider removals',
  'A crash or fault between any two datastore writes of any chain must leave the pointer behind what was processed; tests stop at a few points.',
  ['internal/ingest/ingest.go'],
  [('marker and pointer writes', 'internal/ingest/ingest.go markAdProcessed'), ('pointer reads', 'internal/ingest/ingest.go GetLatestSync/restoreLatestSync'), ('pointer removal', 'internal/ingest/ingest.go syncRemovedProviders')],
  PS, BASE + 'The order of writes is decided; that the datastore keeps the order across a crash is assumed.'),
P('I04', 'Every multihash of an advertisement\'s entries is indexed',
  'Every valid multihash in the entries fetched for an advertisement is handed to the index, whether the entries are a chain of chunks or a HAMT: each chunk is indexed in full and its next link followed, each HAMT child is fetched and each key added, every batch, also the last, is written before success is reported, and the memory of a batch is not overwritten while it is being written. Only invalid multihashes are left out. The batches of an admin import are likewise all written.',
  ['inputs', 'schedules'], 'every entries structure, batch size and timing of the batch writer',
  'Losing or corrupting a batch depends on entry counts relative to the batch size and on scheduling of the writer goroutine.',
  ['internal/ingest/linksystem.go', 'server/admin/http/handler.go'],
  [('chunk and HAMT walk', 'internal/ingest/linksystem.go ingestAd'), ('batching', 'internal/ingest/linksystem.go indexAdMultihashes'), ('import batching', 'server/admin/http batchIndexerEntries')],
  'dataflow of pending and in-flight batches, all paths', BASE + 'An entry chunk that cannot be decoded ends the chain (reported as a permanent error).'),
P('I05', 'Index entries say what their source said',
  'What an advertisement adds to the index carries exactly its provider, context ID and metadata; a removal removes exactly the context of its provider and adds nothing, anything else removes nothing, and only an advertisement without entries is treated as a metadata update, which then writes the metadata. Entries are the advertisement\'s own, fetched from the publisher it came from, and the provider is registered with that publisher and the advertisement\'s addresses and CID. Direct index requests and admin imports write only under the provider, context ID and metadata they name.',
  ['inputs'], 'every advertisement, direct request and import request',
  'Tests use one provider that is its own publisher and a few contexts, so swapped identities or mixed-up fields go unnoticed.',
  ['internal/ingest/linksystem.go', 'server/ingest/handler/ingest_handler.go', 'server/admin/http/handler.go'],
  [('ingestion', 'internal/ingest/linksystem.go ingestAd/getAdData/storeBatch'), ('direct requests', 'server/ingest/handler/ingest_handler.go IndexContent'), ('imports', 'server/admin/http/handler.go')],
  PS, BASE),
P('I09', 'Oversized context IDs and metadata are never indexed',
  'Content is put into the index, by an advertisement or by a direct index request, only if its context ID is at most 64 bytes and its metadata at most 1024 bytes long; otherwise the advertisement or request fails.',
  ['inputs'], 'every advertisement and direct request',
  'The limit must hold on each path to the index for any size, including ones just over it.',
  ['internal/ingest/linksystem.go', 'server/ingest/handler/ingest_handler.go', 'api/v0/ingest/schema/types.go', 'api/v0/ingest/schema/schema.go'],
  [('ingestion', 'internal/ingest/linksystem.go ingestAd'), ('direct requests', 'server/ingest/handler/ingest_handler.go IndexContent'), ('validation', 'api/v0/ingest/schema/types.go Validate')],
  PS, BASE),
P('I06', 'One worker per provider at a time; announcements wait for it',
  'Work staged for a provider is taken and worked through only while holding that provider\'s token, of which there is one, and the token is given back on every path. A direct announcement is passed on only while holding its provider\'s token; if that is taken, the announcement is kept, replacing an earlier kept one, and reported as accepted. A worker takes the kept announcement out and passes it on after its work and before it gives the token back.',
  ['histories', 'schedules'], 'every interleaving of workers and announcements, any number of providers',
  'Two workers on one provider, or an announcement lost, need an interleaving that tests do not force.',
  ['internal/ingest/ingest.go'],
  [('token per provider', 'internal/ingest/ingest.go ingestWorker/Announce'), ('kept announcements', 'internal/ingest/ingest.go handlePendingAnnounce')],
  'typestate analysis of the token (held/free) and of staged work and kept announcements, all paths', BASE + 'An announcement kept after the worker looked for one waits for the next work on that provider.'),
P('I07', 'A sync reports completion only when its head was dealt with',
  'Each advertisement worked through is reported once, with its CID, publisher and head, after it was marked, or with an error if it failed, and each report reaches every waiter of its publisher. A sync registers as a waiter before it fetches; its channel yields the fetched head at most once, and only if that head or a failure of its chain was reported, or if, looked up after registering, it is the latest processed and no resync was asked for; then it is closed. Waiting ends on cancellation and on close; whoever stops waiting is removed alone. A waiter, whether it is still fetching or stops waiting, never blocks the delivery of reports to others.',
  ['histories', 'schedules'], 'every interleaving of syncs, workers, event delivery, cancellation and shutdown',
  'Lost or premature completions depend on when a waiter registers relative to the worker and on failures at particular advertisements.',
  ['internal/ingest/ingest.go'],
  [('reports', 'internal/ingest/ingest.go ingestWorkerLogic'), ('delivery', 'internal/ingest/ingest.go distributeEvents/onAdProcessed'), ('explicit sync', 'internal/ingest/ingest.go Sync')],
  'typestate analysis of reports, waiters and result channels, all paths', BASE + 'Liveness of the fetching library is assumed.'),
P('I10', 'A sync covers what was asked for',
  'An explicit sync contacts the peer and address asked for, starts at its current head, and goes down to the latest processed advertisement, or, for a resync, as deep as asked, up to the depth given; a resync, and nothing else, marks each advertisement it fetches as unprocessed. Where no depth was given the configured limits for advertisements and entries apply. A provider that is polled is synced with its last known publisher at its last known address, and the admin API starts exactly the sync asked for and reports success only if it was started.',
  ['inputs', 'histories'], 'every request, configuration and history of registrations',
  'Depth, resync and address combine; tests exercise a few combinations, with publisher and provider the same peer.',
  ['internal/ingest/ingest.go', 'server/admin/http/handler.go'],
  [('explicit sync', 'internal/ingest/ingest.go Sync'), ('polling', 'internal/ingest/ingest.go autoSync'), ('admin sync', 'server/admin/http/handler.go')],
  PS, BASE + 'For a resync without a depth, no limit and the configured limit are both accepted.'),
P('I08', 'Entry blocks do not pile up in the datastore',
  'Every block fetched as part of an advertisement\'s entries - the first one, each further chunk, each HAMT node - is removed from the datastore when its processing ends, however it ends, unless it could not be loaded or decoded. No block but those of the entries is removed while an advertisement is ingested.',
  ['inputs', 'histories'], 'every entries structure and every point of failure',
  'A leak shows only on particular failure paths and is not observable through the API that tests use.',
  ['internal/ingest/linksystem.go'],
  [('chunk removal', 'internal/ingest/linksystem.go ingestEntryChunk'), ('HAMT removal', 'internal/ingest/linksystem.go ingestAd')],
  'typestate analysis of fetched blocks (fetched/noted/removed), all paths', BASE + 'A failing datastore removal is only logged.'),
P('R01', 'The registry is used by one goroutine that never waits for its clients',
  'The registry\'s mutable state (registered providers, discovery times) is read and written only by actions run on the registry\'s own goroutine, or before that goroutine is started. Exactly one goroutine takes actions and runs each of them once, to its end, before the next. An action never waits: it does not submit an action, receive or sleep, and sends only without blocking, to a buffer that has room, or to someone who certainly receives. Whoever waits for the answer of an action gets one on every path.',
  ['schedules', 'histories'], 'every interleaving of API calls, polling, discovery and shutdown',
  'Data races and deadlocks on the registry appear only under particular interleavings that tests do not produce.',
  ['internal/registry/registry.go'],
  [('actions', 'internal/registry/registry.go run'), ('API', 'internal/registry/registry.go exported methods'), ('discovery', 'internal/registry/registry.go syncStartDiscover')],
  'ownership (actor-confinement) and effect analysis, all paths, closures followed through channels', BASE),
P('R02', 'Provider records are never changed once others can see them',
  'A ProviderInfo is changed only after it was created in the same operation and before it is put in the registry, sent to another goroutine or returned; its address list is not changed in place. What a caller got from the registry therefore stays consistent and may be read without a lock.',
  ['schedules', 'programs'], 'every interleaving of readers with registrations, updates and polling',
  'The race needs a reader to hold a record while it is updated; tests read and update one after the other.',
  ['internal/registry/registry.go', 'server/finder/handler/finder_handler.go', 'server/ingest/handler/ingest_handler.go'],
  [('updates', 'internal/registry/registry.go RegisterOrUpdate'), ('polling', 'internal/registry/registry.go pollProviders')],
  'ownership analysis of records (fresh/published), all paths', BASE),
P('R03', 'Registrations and removals survive a restart',
  'A registration is acknowledged only after the provider\'s record was written to the datastore under the provider\'s key and synced without error, and was entered in the registry under its own ID. A removal also removes the stored record and is acknowledged only once that is synced; whenever a registered provider is removed, a record marked deleted is sent to the ingester so that its data is removed. At start-up every stored record is entered under the ID it is stored for, unless the policy forbids the provider; a record that cannot be read fails the start. Every exported field of a record is stored and read back.',
  ['histories', 'inputs'], 'every history of registrations, removals and restarts, every datastore failure',
  'Needs a crash or datastore fault between two writes; tests restart after a clean close only.',
  ['internal/registry/registry.go'],
  [('persist', 'internal/registry/registry.go syncPersistProvider'), ('load', 'internal/registry/registry.go loadPersistedProviders'), ('remove', 'internal/registry/registry.go RemoveProvider, syncRemoveProvider, pollProviders')],
  PS, BASE + 'Without a datastore the registry keeps nothing; those paths are exempt from the storage obligations.'),
P('R04', 'Polling follows each provider\'s own settings',
  'A provider is polled by the settings configured for it, if any, and by the general ones otherwise, each setting being what the configuration says. A provider with a publisher is polled exactly when there was no contact for the polling interval; the first look after start-up only sets the time of contact. It is marked inactive only, and whenever, polling went on for twice the retry time, and it is given up and removed only if polling went on for the stop time. At every tick all providers are looked at and the timer is set again.',
  ['histories', 'inputs'], 'every set of providers, overrides and contact times, every map iteration order',
  'A setting of one provider leaking to another depends on map order and on combinations of overrides that tests do not produce.',
  ['internal/registry/registry.go'],
  [('poll loop', 'internal/registry/registry.go runPollCheck'), ('decision', 'internal/registry/registry.go pollProviders'), ('settings', 'internal/registry/registry.go makePollOverrideMap')],
  PS + '; thresholds compared as linear forms over the settings', BASE + 'Accuracy of timers is not covered.'),
P('R05', 'Discoveries run at most once per address and never get stuck',
  'A discovery is started only if none is in progress for the same address, and the last one ended at least the rediscovery time ago (or no such time is configured); otherwise the caller gets an error. A discovery that was marked as in progress is marked as ended whatever its outcome, and only once it has ended; it either reports an error or registers what the discoverer found, with the address asked for. The time of a discovery is forgotten only if it is not in progress and the rediscovery time has passed. Closing the registry waits for every discovery: each is counted before it starts until its result was handed over, and counted off exactly once.',
  ['schedules', 'histories'], 'every history of discovery requests, outcomes, clean-ups and shutdowns',
  'A discovery left marked as in progress, or counted wrongly, shows only after a failing discovery followed by another request or by shutdown.',
  ['internal/registry/registry.go'],
  [('start', 'internal/registry/registry.go syncStartDiscover, syncNeedDiscover'), ('clean-up', 'internal/registry/registry.go cleanup'), ('shutdown', 'internal/registry/registry.go runPollCheck')],
  'typestate analysis of discoveries (free/in progress/ended) and of the wait group, all paths', BASE),
P('R06', 'Provider records are updated, not replaced',
  'An update reported for a registered active provider (RegisterOrUpdate) is entered under the provider\'s ID as an active record contacted now. The latest advertisement and its time change exactly when another, defined, advertisement is reported. The publisher changes exactly when a valid one is reported; its address becomes the first reported one, stays if the publisher stays the same and none is reported, and is never that of another publisher. The provider\'s addresses become all those reported, in order, and stay if none are; the discovery address stays. Asking for a provider gives its record exactly if it is registered and active, asking for all gives each active one, and being registered means being in the registry.',
  ['inputs', 'histories'], 'every combination of reported addresses, advertisement and publisher with every known record',
  'The combinations of known and reported fields are many; tests exercise a few of them.',
  ['internal/registry/registry.go'],
  [('update', 'internal/registry/registry.go RegisterOrUpdate'), ('queries', 'internal/registry/registry.go ProviderInfo, AllProviderInfo, IsRegistered')],
  PS, BASE + 'For an inactive provider that is heard of again the record may start anew, as the code does.'),
P('F01', 'Lookups return exactly what the index holds for active providers',
  'Every multihash asked for is looked up, and every value found for it is in the answer unless its provider is not registered or not active; there is no value of such a provider, no multihash without a provider, and each result is the provider, context ID and metadata of one value found for that multihash, with the addresses registered for that provider. An index or registry error fails the request: no partial answers. Each protocol (HTTP single and batch, libp2p, delegated routing) looks up exactly the multihashes a readable request names; the delegated-routing answer holds exactly the found providers that announce bitswap.',
  ['inputs', 'histories'], 'every request, index content and set of registered providers',
  'The answer depends on which providers are registered, inactive or removed between values; tests use one or two active providers.',
  ['server/finder/handler/finder_handler.go', 'server/finder/http/handler.go', 'server/finder/libp2p/handler.go', 'server/reframe/reframe.go'],
  [('lookup', 'server/finder/handler/finder_handler.go Find'), ('HTTP', 'server/finder/http/handler.go'), ('libp2p', 'server/finder/libp2p/handler.go'), ('delegated routing', 'server/reframe/reframe.go FindProviders')],
  PS + '; each loop is shown to handle every element or fail', BASE + 'Equality of encodings on the wire is left to the libraries.'),
P('F02', 'Answering a lookup removes entries only of unregistered providers',
  'Answering a lookup removes index entries only of a provider that is not registered at all (one that is merely inactive keeps them), and only those of the provider and context ID of the value found. It changes the index in no other way.',
  ['inputs', 'histories'], 'every index content and every state of the registry',
  'Needs an inactive provider with index entries at the moment of a lookup; tests never look up an inactive provider.',
  ['server/finder/handler/finder_handler.go'],
  [('lookup', 'server/finder/handler/finder_handler.go Find')],
  PS, BASE + 'The removal runs in the background; a registration that arrives between the check and the removal is not covered.'),
P('F03', 'What is reported of a provider is its registered record',
  'The list of providers has one entry for each registered active provider; a request for one provider is answered with that provider\'s record, or with nothing exactly if it is not registered and active. An entry reports the ID, addresses and latest advertisement of the record, the publisher with its address exactly if both are known, and the time of the latest advertisement exactly if both are known. The statistics are computed from the size of the index, or an error is returned.',
  ['inputs', 'histories'], 'every set of registered providers and every combination of known and unknown fields',
  'The combinations of unknown publisher, address, advertisement and time are not sampled by tests.',
  ['server/finder/handler/finder_handler.go', 'api/v0/finder/model/provider_info.go'],
  [('list and get', 'server/finder/handler/finder_handler.go ListProviders, GetProvider'), ('entry', 'api/v0/finder/model/provider_info.go MakeProviderInfo')],
  PS, BASE + 'The text format of times is not covered.'),
P('P01', 'Each libp2p message is carried out and answered as what it is',
  'A libp2p request is carried out by the operation its type names, with the data it carries, and answered with the response type of that request exactly if every step succeeded, with what the operation gave; otherwise with an error response carrying the error\'s status and text. A message that cannot be read or is of an unknown type is refused, not answered. Each message of a stream is handled once, with its own bytes and sender, and answered by its own response before the next is read; a stream is given up after a failure and closed or reset exactly once.',
  ['inputs', 'histories', 'programs'], 'every sequence of messages, every outcome of the operations and of the stream',
  'Error paths and message types combine; tests send one good message per type.',
  ['server/finder/libp2p/handler.go', 'server/ingest/libp2p/handler.go', 'internal/libp2pserver/server.go', 'internal/libp2pserver/message_writer.go'],
  [('dispatch', 'server/finder/libp2p/handler.go, server/ingest/libp2p/handler.go HandleMessage'), ('stream loop', 'internal/libp2pserver/server.go handleNewMessages')],
  'typestate analysis of requests and streams, all paths, handlers followed through function values', BASE),
P('P02', 'HTTP requests get one truthful status',
  'Each HTTP request to the finder, ingest and admin servers is answered with exactly one status, with no header set after it and nothing done or written after an error status. Success is answered only if every step of the request succeeded, an error only if a step failed or nothing was found, and not found exactly if a lookup found nothing. The body of a successful answer is what the operation gave, and the operation is given the content of the request. An error that carries a status is answered with it, any other error as a bad request; the text of an internal error is never told to clients (HTTP or libp2p), that of a client error is.',
  ['inputs', 'programs'], 'every request and every outcome of each step',
  'Failing steps (a body that cannot be read, an index error, a file that cannot be opened) are not produced by tests.',
  ['server/finder/http/handler.go', 'server/ingest/http/handler.go', 'server/admin/http/handler.go', 'server/admin/http/config_handler.go', 'internal/httpserver/util.go', 'internal/libp2pserver/server.go'],
  [('handlers', 'server/*/http/handler.go'), ('errors', 'internal/httpserver/util.go HandleError')],
  'typestate analysis of responses and of the outcome of each operation, all paths', BASE + 'Requests delegated to library handlers (metrics, profiles, the web page, delegated routing) are not covered.'),
P('P03', 'Clients report what the server answered',
  'A method of the HTTP and libp2p clients reports success only if its request was sent under the caller\'s context, was answered with a success status (HTTP) or with the response type of that request (libp2p), and the answer was read and decoded to its end; it then gives what was answered. For lookups, not found means no results. An error response is always reported as an error, whatever its text. Every response body is closed. The libp2p clients use their stream for one request at a time, and drop it after any failure, so that a late response is never taken for that of another request.',
  ['inputs', 'histories', 'schedules'], 'every answer of a server, every failure of the transport, every interleaving of callers of one client',
  'Failing and late answers, and the stream left behind by a request that timed out, are not produced by tests.',
  ['api/v0/finder/client/http/client.go', 'api/v0/ingest/client/http/ingest.go', 'api/v0/admin/client/http/client.go', 'api/v0/finder/client/libp2p/client.go', 'api/v0/ingest/client/libp2p/client.go', 'api/v0/libp2pclient/client.go', 'api/v0/libp2pclient/message_writer.go', 'api/v0/httpclient/client.go'],
  [('HTTP clients', 'api/v0/*/client/http'), ('libp2p clients', 'api/v0/*/client/libp2p'), ('stream', 'api/v0/libp2pclient/client.go SendRequest')],
  'typestate analysis of requests, response bodies and the client stream, all paths', BASE),
P('D01', 'State shared by goroutines is accessed only under its lock',
  'In an object that has a lock (the ingester, the admission policy, the sequence numbers), a field that can change after the object was made and is used from more than one entry point or goroutine is read and changed only while one and the same lock of that object is held, and changed only while it is held exclusively. A variable that is accessed atomically anywhere (the batch size, which a reload can change while advertisements are ingested) is always accessed atomically.',
  ['schedules', 'programs'], 'every interleaving of the goroutines and callers of an object',
  'A missing lock shows only under particular interleavings, and tests run few of them.',
  ['internal/ingest/ingest.go', 'internal/registry/policy/policy.go', 'internal/registry/sequences.go', 'peerutil/policy.go'],
  [('event waiters, staging, rate limit, batch size', 'internal/ingest/ingest.go'), ('policy', 'internal/registry/policy/policy.go'), ('sequences', 'internal/registry/sequences.go')],
  'lockset analysis (guarded-by inference) over all paths of every entry point', BASE + 'State confined to a goroutine is covered by R01, channels used as locks by I06 and P03.'),
P('D02', 'Locks are released, and nobody waits while holding one',
  'A mutex that is taken is released on every path of the function that took it, is never taken again by the goroutine that holds it, and is released only by its holder; locks are always taken in the same order. Nobody waits for another goroutine (channel operation, wait group) or for the network while holding a mutex, except that reports on advertisements are handed, under the lock of the list of waiters, to waiters that always take them.',
  ['schedules', 'programs'], 'every path and every interleaving of the holders of a lock',
  'A lock kept on an early return or held across a wait stops the indexer only on rare paths and schedules.',
  ['internal/ingest/ingest.go', 'internal/registry/policy/policy.go', 'internal/registry/sequences.go'],
  [('locks', 'internal/ingest/ingest.go, internal/registry/policy/policy.go, internal/registry/sequences.go')],
  'lock typestate, lock-order graph and blocking-effect analysis, all paths', BASE + 'The order between the locks of two objects of the same type is not covered.'),
P('D03', 'Shutdown waits for background work and reports failures',
  'Closing the ingester or the registry never makes background work send on a closed channel, and closes each channel once, however often it is called. It tells every goroutine it waits for to stop before it waits, and returns only after all ingest workers, pending syncs and discoveries have ended; the ingester closes its subscriber first and returns that error, the registry closes the datastore only after the last pending action. The channel of a waiting sync is closed only together with dropping it from the list of waiters. The daemon, when it ends, stops every server it started, then closes the ingester, then the value store, whatever failed before, and returns an error if any of these failed.',
  ['schedules', 'histories'], 'every moment of shutdown relative to the background work, every failure while stopping',
  'Closing while work is pending, closing twice and failing to stop are rare schedules that tests do not produce.',
  ['internal/ingest/ingest.go', 'internal/registry/registry.go', 'command/daemon.go'],
  [('ingester', 'internal/ingest/ingest.go Close'), ('registry', 'internal/registry/registry.go Close, runPollCheck, run'), ('daemon', 'command/daemon.go daemonCommand')],
  'typestate and happens-before analysis of channels, wait groups and goroutine starts, all paths', BASE + 'Calls of the API made after or during Close are the caller\'s responsibility. That every wait ends in bounded time is not covered.'),
P('D06', 'A file import indexes every CID of the file or reports an error',
  'Importing a CID list or a manifest puts the multihash of every valid CID of the file into the index, whatever its CID version and wherever it stands in the file (the last line needs no newline; a manifest entry may have only a CIDv0), and nothing else. Blank lines, lines that are not valid and manifest records of other types are skipped. The multihashes are put under the provider, context ID and metadata named in the request. The admin server answers success only after the file was read to its end without an error, at least one CID was found, and everything was put into the index. The readers close both channels exactly once on every path, send at most one error, report read errors and cancelation, and never block after cancelation.',
  ['inputs', 'schedules'], 'every file, every failure while reading or putting, every moment of cancelation',
  'The tests read one well-formed file of each kind.',
  ['internal/importer/cidlist.go', 'internal/importer/manifest.go', 'server/admin/http/handler.go'],
  [('readers', 'internal/importer ReadCids, ReadManifest'), ('handlers', 'server/admin/http/handler.go importCidList, importManifest, batchIndexerEntries')],
  'path-sensitive obligation tracking per line read; typestate of the channels; accumulator dataflow for batches', BASE + 'Which lines are valid is decided by go-cid and encoding/json. A manifest line over 64 KiB is an error of the scanner, which is reported.'),
P('D05', 'A configuration reload applies everything or is reported as failed',
  'A reload requested by a hang-up signal, by a change of the watched configuration file or by the admin server loads the configuration file and applies its policy, rate limit, batch size, number of ingest workers, log levels and peering. Each request of the admin server is answered exactly once, with success exactly if every step succeeded, and the admin server passes that answer on. After a failed reload the daemon goes on with the configuration and the peering service it has: neither is lost, and a running peering service is stopped in the end. The daemon never waits for itself, and a pending request does not keep the admin server from shutting down. Setting the number of workers starts or stops exactly as many as needed to have that number.',
  ['histories', 'schedules', 'inputs'], 'every sequence of reload requests, every failing step, every moment of shutdown',
  'No test reloads a configuration in a running daemon, or makes a step fail.',
  ['command/daemon.go', 'server/admin/http/handler.go', 'internal/ingest/ingest.go'],
  [('daemon', 'command/daemon.go daemonCommand, reloadConfig, reloadPeering, fileChanged'), ('admin server', 'server/admin/http/handler.go reloadConfig'), ('workers', 'internal/ingest/ingest.go RunWorkers')],
  'path-sensitive obligation tracking over the daemon loop; typestate of the peering service and the answer channel', BASE + 'Steps applied before one that fails stay applied. That stopping a worker waits until one is free is accepted.'),
P('I11', 'Publishers are rate-limited as configured',
  'The limiter that governs fetching from a publisher has exactly the configured rate and burst size; it is unlimited exactly if the configured rate is zero or the configured rule (default and exceptions) does not apply to that publisher. Rate, burst size and rule are always set together from one configuration. Setting a limit with a negative rate or burst size, or an invalid peer ID, fails and changes nothing. The subscriber through which everything is fetched uses these limiters.',
  ['inputs', 'histories'], 'every configuration, every publisher, every sequence of reloads',
  'Tests check the limiter for a few peers and values.',
  ['internal/ingest/ingest.go'],
  [('limiter', 'internal/ingest/ingest.go getRateLimiter'), ('settings', 'internal/ingest/ingest.go SetRateLimit, configRateLimit, NewIngester')],
  'path-sensitive value tracking: decision table of the limiter, provenance of the stored settings', BASE + 'How a limiter is obeyed is go-legs. At start an invalid setting is logged and limiting is off; the property covers setting a limit later.'),
P('D07', 'Configuration is honoured, completed with defaults, and never lost',
  'Loading a configuration succeeds only if the file exists and decodes; a missing file is reported as not initialized. A setting missing in the file has the value a new configuration has; a setting for which zero means the default (every number, duration and string with a non-zero default except those documented to keep zero: bootstrap minimum, rediscover wait, lotus gateway, blocks per second) gets the default exactly if it is zero; all others stay as in the file. An identity is a private key with its own peer ID, and a configured peer ID that does not match is rejected. Success of saving means the whole configuration was written; an existing file is replaced only after it was moved aside, and init never overwrites one and saves the values it was given. The daemon makes and starts each server, at its configured address, exactly if neither its address is "none" nor its flag disables it, and keeps its data in the configured directories and store type.',
  ['inputs', 'programs'], 'every configuration file and every combination of flags',
  'Tests load one default file; which of some forty settings are absent, zero or set, and which servers are enabled, has far more combinations, and the daemon test starts only one.',
  ['config/config.go', 'config/ingest.go', 'config/discovery.go', 'config/identity.go', 'config/init.go', 'command/init.go', 'command/daemon.go'],
  [('loading and defaults', 'config/config.go Load, config/*.go populateUnset'), ('identity', 'config/identity.go Decode, config/init.go CreateIdentity'), ('saving and upgrading', 'config/config.go Save, UpgradeConfig; command/init.go'), ('start of the daemon', 'command/daemon.go daemonCommand')],
  'path-sensitive value tracking of every setting (one decision table per field), obligation tracking for files and servers', BASE + 'JSON decoding is encoding/json\'s; that a key absent from the file leaves its field alone is its documented behaviour. The error of closing a written file is not reported by the code and not demanded.'),
P('D04', 'Nothing received from outside can crash the indexer',
  'Whatever a peer, publisher, client or another indexer sends, the indexer answers with an error or skips the item, and keeps running. Handling requests, announcements, advertisements, entries and provider lists, it never uses a record, optional field or result that may be missing without having found it to be there, never takes the first or last element of a received list that may be empty, never relies on the type of a received value it did not check, and raises no panic. The same holds when optional parts - the ingester, discovery - are disabled.',
  ['inputs', 'programs'], 'every message, block and response, with every combination of optional parts',
  'A crash needs one particular missing part of one message; tests send complete messages to a complete indexer.',
  ['server/ingest/handler/ingest_handler.go', 'server/finder/handler/finder_handler.go', 'internal/ingest/ingest.go', 'internal/ingest/linksystem.go', 'internal/registry/registry.go', 'api/v0/ingest/schema/envelope.go', 'api/v0/ingest/schema/types.go', 'command/daemon.go'],
  [('handlers', 'server/ingest/handler, server/finder/handler, server/admin/http'), ('ingestion', 'internal/ingest'), ('imported provider lists', 'internal/registry/registry.go ImportProviders'), ('optional parts', 'command/daemon.go')],
  'path-sensitive nilness, emptiness and type-assertion analysis of all functions that handle outside data',
  BASE + 'Positions that a loop counts, out-of-memory conditions, and panics inside dependencies are not covered; an optional field is one the wire types declare as a pointer or some code compares with nil.'),
]
NA = [
N('N01', 'What is encoded decodes to the same value',
  'Every request, response, advertisement, entry chunk, registry record and configuration decodes, from its own encoding, to a value equal to the one that was encoded.',
  ['inputs'], 'every value of every encoded type', 'Tests round-trip a few values.',
  ['api/v0/finder/model/model.go', 'api/v0/ingest/schema/types.go', 'internal/registry/registry.go'],
  [('encodings', 'api/v0/*/model, api/v0/ingest/schema, internal/registry/registry.go')],
  'The encoders and decoders are encoding/json, bindnode and CBOR libraries driven by reflection on types and schemas at run time; equality of values after a round trip is not a fact of this source that a static argument can establish. That every field of a registry record takes part in saving and loading, and that the signed digest covers each field, is decided under R03 and A02.'),
N('N02', 'A lookup sees every completed ingestion and no completed removal',
  'A lookup that starts after an advertisement was reported as processed returns its provider for each of its multihashes, unless a removal was processed in between, and never returns an entry whose removal completed before the lookup started.',
  ['histories', 'schedules'], 'every interleaving of lookups, ingestions and removals', 'Tests look up after ingestion has settled.',
  ['internal/ingest/linksystem.go', 'server/finder/handler/finder_handler.go'],
  [('index writes', 'internal/ingest/linksystem.go'), ('lookups', 'server/finder/handler/finder_handler.go')],
  'Linearizability of lookups is decided inside the value store and the result cache (go-indexer-core, storethehash, pogreb), which are dependencies and not part of this repository. The part that is - which writes are made, with what, before an advertisement is marked - is decided under I01, I02, I04, I05 and F01.'),
N('N03', 'Polls, retries and timeouts happen when configured',
  'Each provider is polled, retried, deactivated and removed no earlier and not much later than the configured durations after the last contact, and each timeout ends the wait it bounds in the configured time.',
  ['schedules'], 'every clock and every load', 'Tests use short durations and generous margins.',
  ['internal/registry/registry.go', 'internal/ingest/ingest.go'],
  [('polling', 'internal/registry/registry.go runPollCheck/pollProviders'), ('timeouts', 'internal/ingest/ingest.go')],
  'How late a timer fires and how long a step takes are quantities of the running system that no static argument here bounds. That the configured durations are the ones compared with, and in which order the states follow, is decided under R04 and I11.'),
N('N04', 'Indexed content survives a crash',
  'After a crash at any point, everything that was indexed by advertisements marked as processed is still found after a restart.',
  ['histories'], 'every crash point', 'Tests do not crash the process.',
  ['internal/ingest/ingest.go', 'command/daemon.go'],
  [('flush and close', 'command/daemon.go'), ('processed markers', 'internal/ingest/ingest.go markAdProcessed')],
  'The value store buffers writes and flushes them in the background by its own timer, in a dependency; whether a given Put reached the disk before the marker (in another store) did is not determined by this source. The order of the calls the source does make is decided under I01, I03 and D03.'),
N('N05', 'Every reachable advertisement is eventually indexed',
  'If a publisher stays reachable and its chain stays the same, then every valid advertisement of an allowed provider on it is eventually marked as processed.',
  ['schedules', 'histories'], 'every fair schedule of announcements, polls, syncs and failures', 'Tests wait for one sync to finish.',
  ['internal/ingest/ingest.go', 'internal/registry/registry.go'],
  [('sync and worker loops', 'internal/ingest/ingest.go'), ('polling', 'internal/registry/registry.go')],
  'A liveness claim over unbounded histories with retries driven by the network and by timers; a static argument would have to bound runtime failures. Blocking forever on locks, channels and reports is decided under D02, D03 and I07; that a failed advertisement is retried rather than lost under I01 and I06.'),
N('N06', 'Memory and message sizes stay bounded',
  'The memory used per request, announcement, sync and lookup is bounded by the configured limits, whatever is sent.',
  ['inputs'], 'every message size and number of concurrent requests', 'Tests send small messages.',
  ['internal/libp2pserver/server.go', 'server/ingest/http/handler.go', 'internal/ingest/linksystem.go'],
  [('readers', 'internal/libp2pserver, server/*/http'), ('entries', 'internal/ingest/linksystem.go')],
  'Bounds on memory depend on sizes and concurrency at run time and on allocation inside libp2p, graphsync and the value store; the tree has no accounting that a static argument could follow. The limits that the source itself enforces on context ID, metadata, entry depth and rate are decided under I08, I09 and I11.'),
]
