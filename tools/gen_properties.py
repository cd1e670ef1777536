#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(zip(("name","meaning","where"), s)) for s in (state or [])],
                  "mechanism": [dict(zip(("name","where"), m)) for m in mech], "observe_at": observe or ["gRPC responses"], "hook_needed": None}})
MC="internal/queue/cache/memory_cache.go"; RC="internal/queue/cache/redis_cache.go"; LUA="internal/queue/cache/redis_cache_scripts.go"
MS="internal/queue/storage/memory_storage.go"; MG="internal/queue/storage/mongo_storage.go"
Q="internal/queue/queue.go"; HK="internal/queue/queue_housekeeper.go"; SV="internal/service/deckard_service.go"
SC="internal/queue/score/score.go"; DT="internal/dtime/deckard_time.go"; CF="internal/queue/queue_configuration_service.go"
H=["inputs","histories"]

p("C01","Pull returns the highest-priority available messages, up to the amount",
 "A pull returns exactly min(amount, available) distinct messages of the requested queue, and no message left behind is available with a lower score than a returned one. They are returned in the order of the scores which they carry. The amount defaults to 1 when it is not positive and is capped at 1000.",
 H,"every history of adds, pulls, acks, nacks, timeouts and unlocks on any queue, every amount","The tests pull from a few hand-made queues; ordering must survive every history that inserts, re-scores and moves messages between pools.",
 [MC,RC,LUA,Q,SV],[("ordered active pool",MC),("pull script",LUA),("amount normalisation",SV)])
p("C02","Score filters of a pull are exact",
 "A pull with min_score and/or max_score (or the deprecated score_filter, meaning now minus the filter as upper bound when max_score is not set) returns only available messages whose score lies in the inclusive range, and returns them even when messages outside of the range have better scores; 0 means no bound and out-of-range bounds are clamped to [0, 9007199254740992].",
 H,"every set of scores, every pair of bounds including negative, zero, fractional, equal to a score and beyond the maximum","A handful of fixed filters is tested, never against a mix of matching and non-matching messages of random scores.",
 [MC,LUA,SC,SV],[("filter in pull",MC),("ZRANGEBYSCORE branch",LUA),("bound normalisation",SC)])
p("C03","A delivered message is not delivered again while it is being processed",
 "From its delivery until it is acked, nacked, removed or its acknowledge deadline expires and is swept, a message is never returned by another pull, whoever pulls and however pulls interleave.",
 ["histories","schedules"],"every history of operations and every interleaving of concurrent pulls, acks, nacks, re-adds and housekeeping","Tests are sequential and short; exclusivity must hold across re-adds, recoveries, partial failures and concurrent clients.",
 [MC,LUA,Q],[("processing pool",MC),("atomic pull script",LUA),("re-add does not touch known ids",LUA)])
p("C04","No message is ever lost",
 "A message that was added, has not been removed, evicted or expired, is always either available, being processed or locked: once every deadline and lock has passed and housekeeping has run, draining its queue returns it exactly once.",
 ["histories","schedules"],"every history ending in a quiescent drain","Tests check single transitions; a message may vanish only after a particular combination of transitions.",
 [MC,RC,LUA,MS,MG,Q,HK],[("moves between pools are remove+insert pairs",MC),("scripts are atomic",LUA)])
p("C05","Unacknowledged messages come back exactly after their deadline",
 "A delivered message that is neither acked nor nacked stays unavailable until ack_deadline_ms milliseconds (5 minutes when 0) have passed since the pull, and the first timeout sweep after that (with Redis: the first sweeps, of at most 1000 messages per queue each) makes it available again with the best priority (score 0); acks arriving after the sweep report success=false.",
 H,"every deadline, including the default, every sweep time, several queues and overlapping deadlines","Tests use a mocked instant or a single sleep; unit and rounding errors only show at particular durations.",
 [MC,RC,LUA,HK,"internal/queue/cache/cache.go"],[("processing score is the deadline",MC),("timeout script",LUA),("timeout task",HK)])
p("C06","Locked messages stay locked for lock_ms and then return to their own queue",
 "A message acked or nacked with a positive lock_ms is never delivered before lock_ms milliseconds have passed, and the first unlock sweep after that (with Redis: the first sweeps, of at most 1000 messages per queue each) makes every due message (and no other) available again in the queue it came from.",
 H,"every set of locks of both kinds over several queues with any durations and any sweep times","Tests lock one or two messages of one queue.",
 [MC,RC,LUA,HK],[("lock pools per kind",MC),("lock and unlock scripts",LUA),("unlock task",HK)])
p("C07","The priority after ack/nack follows the documented score rules",
 "After an ack or nack the message's new score is the requested score clamped to [0, 9007199254740992] when one is given, otherwise the current timestamp (minus score_subtract when not locked, clamped) for an ack and 0 for a nack; with a lock the score takes effect at unlock, the timestamp being that of the unlock sweep.",
 H,"every combination of ack/nack, score (negative, zero, fractional, beyond the maximum), score_subtract, lock_ms and clock","Tests cover a few positive scores; the rule is a product of five parameters and two backends.",
 [SV,Q,MC,RC,LUA,SC],[("score selection",SV),("clamping",SC),("lock score pool",LUA)])
p("C08","Removal is final and its counts are exact",
 "A removed message (by Remove, or by removeMessage on ack/nack) is never delivered or found again unless re-added, whatever state it was in, other messages are untouched, and the reported counts are the numbers of distinct messages actually removed from storage and from cache (in the count of the Redis cache a locked message may count twice, as its lock and as its score after the lock).",
 H,"every list of ids (duplicates, unknown ids, ids in every state, empty) on every state","Tests remove known ids in one state.",
 [SV,Q,MC,RC,LUA,MS,MG],[("remove from every pool",MC),("remove script",LUA),("storage delete",MS)])
p("C09","Adding is idempotent per (queue, id)",
 "Adding a message whose id is unknown in that queue creates it and makes it available with its add score; adding an existing one updates its content and expiry but neither duplicates it nor changes its state, score, breakpoint or diagnostics. created_count and updated_count say how many of each happened.",
 H,"every batch over overlapping ids and queues, in every state of the existing message","Tests re-add only available messages.",
 [SV,Q,MC,LUA,MS,MG],[("upsert",MS),("insert only if in no pool",LUA)])
p("C10","Message content round-trips unchanged",
 "Pull and GetById return exactly the payload, string payload and metadata (and GetById the description, and a readable text of each payload) most recently added for that (queue, id), for any content.",
 H,"every content: any Any values, unicode, empty and large maps and strings, special keys","Tests use one or two simple payloads.",
 [SV,MS,MG,"internal/queue/message/message.go"],[("message mapping",SV),("document mapping",MG)])
p("C11","Queues are isolated",
 "No operation on one queue changes, returns, counts, times out, unlocks or removes a message of another queue, even when ids are equal or queue names and ids share prefixes, separators or suffixes.",
 H,"every set of queue names and ids, including ones containing ':' , '::', '*', '?' and internal suffixes","Tests use q1/q2-style names.",
 [MC,RC,LUA,MS,MG,HK],[("per-queue pools",MC),("key naming",RC),("document key",MS)])
p("C12","Expired messages are removed, others are not",
 "A TTL sweep removes from storage and cache every message whose ttl has elapsed and no message whose ttl has not; timeless messages are kept for at least 100 years whatever their ttl, and re-adding restarts the ttl.",
 H,"every set of ttls, timeless flags, re-adds and clock movements, before and after sweeps, in every message state","Tests sweep one or two messages.",
 [SV,HK,MS,MG],[("expiry date",SV),("TTL task",HK)])
p("C13","max_elements evicts exactly the excess, soonest to expire first",
 "After a max-elements sweep a queue with a limit holds at most that many messages; the evicted ones are exactly the excess, chosen by earliest expiry and then by insertion age, and queues without a limit or under it lose nothing.",
 H,"every distribution of expiries including ties, every limit, several queues with and without limits","Tests use distinct expiries and one queue.",
 [HK,MS,MG],[("eviction",HK),("sort",MS)])
p("C14","Queue configuration edits take effect as documented",
 "EditQueue with a positive max_elements sets the limit, -1 (or any negative) removes it, 0 changes nothing; GetQueue on the same instance reports the last effective edit for that queue only, and defaults to no limit.",
 H,"every sequence of edits, reads and sweeps over several queues","Tests check one edit at a time with mocks.",
 [CF,SV,MS,MG],[("configuration service cache",CF),("configuration upsert",MS)])
p("C15","Losing the cache loses no message",
 "After the cache is emptied, running the recovery task repeatedly makes every unexpired stored message available exactly once, keeps messages added meanwhile, terminates, and afterwards lets TTL and eviction tasks run again, even when the task is interrupted or a backend call fails at any point.",
 ["histories","crash_points","fault_sequences"],"every storage content (including more than one recovery batch), every crash point or failed call during recovery, concurrent client operations between steps","Tests run the recovery once on small data with mocks.",
 [HK,Q,MS,MG,RC],[("recovery breakpoints kept in the cache",HK)])
p("C16","A backend failure is reported and never loses messages",
 "When a storage or cache call fails during a request, the request fails with an error instead of reporting success, and once the backend works again and housekeeping has run, every message that was accepted before, and every add that was retried successfully, can still be pulled.",
 ["fault_sequences","histories"],"every backend call of every operation failing before or after taking effect","Mocks test the error code of single calls, not the state reached afterwards.",
 [Q,SV,HK,RC,MG],[("storage first, cache second",Q),("error mapping",SV)])
p("C17","Diagnostics and breakpoints reflect the acks and nacks received",
 "The diagnostics returned with a message equal the numbers of acks, nacks, consecutive acks and consecutive nacks received for that (queue, id) since it was created, and its breakpoint is the one of the last ack.",
 H,"every sequence of acks, nacks, re-adds and removals","Tests check up to two steps.",
 [MS,MG,SV],[("counters",MS),("$inc/$set",MG)])
p("C18","Concurrent use is safe",
 "Any number of concurrent clients and housekeeping tasks never crash or deadlock the server, never make two clients process the same message at once, and leave a state in which every message is accounted for, as if the requests had run one at a time.",
 ["schedules","histories"],"every interleaving of concurrent requests and housekeeping tasks on one or several servers, with the in-memory, Redis and MongoDB backends","No test runs operations concurrently.",
 [MC,MS,Q,CF,RC,LUA,MG,"internal/metrics/metrics_map.go"],[("mutexes",MC),("RWMutex",MS)])
p("C19","Redis cache behaves like the contract, standalone and cluster",
 "With the Redis cache, standalone or cluster, every sequence of cache operations has the same observable results as the pool contract (available, processing, locked by kind), including sizes beyond internal batch limits.",
 H,"every sequence of cache operations against a Redis model, standalone and sharded","The suite needs a live Redis and checks single transitions; sizes and sequences are not explored.",
 [RC,LUA],[("Lua scripts",LUA),("partitioning",RC)],["cache interface results"])
p("C20","Redis keys stay inside the configured namespace and one slot per queue",
 "Deckard only creates, reads and deletes keys below its configured prefix, two instances with different prefixes never see each other's queues or keys, flushing deletes all of its keys and nothing else, queue listing reports each non-empty queue once by its exact name, and all keys of one operation live in one cluster slot; queue names with braces are rejected. (Prefixes that contain '{}' or continue another one after a ':' share keys and are excluded.)",
 ["configurations","inputs","histories"],"every pair of prefixes (one a beginning of the other such as 'a' and 'ab', with separators or glob characters), every queue name, foreign keys, standalone and cluster","Tests use default and one custom prefix on a real server.",
 [RC],[("key naming",RC),("pattern scans",RC)],["keys and commands seen by the Redis server"])
p("C21","MongoDB storage behaves like the storage contract",
 "With MongoDB storage every sequence of storage operations gives the same documents, counts, order and breakpoints as the contract, including batches beyond chunk sizes; a pull whose messages are not yet visible on a lagging secondary still returns them instead of discarding them, and a pull while there is no primary fails rather than discards them.",
 ["inputs","histories","fault_sequences"],"every sequence of storage operations, every replication lag between primary and secondary, every time without primary","The suite needs a live MongoDB and small data; lag never happens in it.",
 [MG,Q],[("upsert",MG),("primary re-read",Q)],["storage interface results"])
p("C22","Flush empties a memory instance and does nothing otherwise",
 "Flush on an instance whose cache and storage are both in memory discards all messages and configurations so that it behaves as new; on any other instance it changes nothing and reports success=false.",
 ["histories","configurations"],"every prior history; every combination of backends","Tests check one flush with few messages.",
 [SV,Q,MC,MS],[("memory instance guard",SV)])
p("C23","Configuration values resolve main key, aliases, then default",
 "Every configuration key returns the value set programmatically or in its DECKARD_-prefixed environment variable, else that of its first set alias, else its documented default; unparsable durations fall back to the default, and reconfiguring drops earlier programmatic values.",
 ["configurations","inputs"],"every subset of environment variables of main key and aliases with any values, every key","Tests cover a few keys with one value each.",
 ["internal/config/viper_config.go","internal/config/config.go"],[("getWithFallback","internal/config/viper_config.go"),("SetDefault","internal/config/config.go")],["configuration getters"])
p("C24","The audit trail records every state change once",
 "With audit enabled, each message inserted in the cache, acked, nacked, timed out, unlocked, removed or found missing produces exactly one entry with the right signal, id, queue, prefix, reason, breakpoint and lock, and all entries stored before shutdown reach the index in order; with audit disabled nothing is sent.",
 ["histories","schedules"],"every history of operations, any number of entries around the batch size, shutdown at any moment","Tests send two entries.",
 ["internal/audit/audit.go",Q,HK],[("entry channel and batches","internal/audit/audit.go"),("Store calls",Q)],["bulk requests to the index"])
p("C25","Shutdown is graceful",
 "After a termination signal the server stops accepting requests but completes those in progress, critical tasks finish before the context is cancelled, background tasks finish before the process reports being finished, and spans are flushed.",
 ["schedules"],"every mix of in-flight requests, critical and background tasks with any durations and order","Tests use fixed sleeps with one task.",
 ["internal/shutdown/shutdown.go","internal/cmd/deckard/main.go","internal/trace/trace.go",HK],[("PerformShutdown","internal/shutdown/shutdown.go")],["order of events"])
p("C26","TLS client authentication is enforced as configured",
 "With server certificates configured, a client is accepted exactly when the configured client_auth policy accepts the certificate it presents (none, self-signed, other CA, trusted CA), every configured certificate and CA is used, and invalid or mismatched TLS configuration refuses to start instead of serving.",
 ["configurations"],"every policy, every kind of client certificate, one or several server certificates and CAs, wrong files","Tests try a few pairs.",
 [SV],[("loadTLSCredentials",SV)],["TLS handshakes"])
p("C27","The served API matches its published contract",
 "Every RPC in the published proto is served and reaches its own handler with all fields intact, the generated descriptors equal the proto files, messages of every type survive encoding unchanged, and requests and responses up to the configured size limits pass while larger ones are rejected.",
 ["inputs","configurations"],"every message value of every type, every RPC, every size around the limits","No test crosses the wire with generated messages.",
 ["deckard_service.pb.go","deckard_service_grpc.pb.go","proto/deckard_service.proto",SV],[("service descriptor","deckard_service_grpc.pb.go"),("size options",SV)],["wire messages"])
p("C28","No request can crash or corrupt the server",
 "Any well-formed request with any field values gets a response or an error status, never a crash or a hang, and a rejected request leaves previously stored messages intact and usable.",
 ["inputs","histories"],"every request of every RPC with arbitrary field values, in any order","Tests use sensible values.",
 [SV,Q,MC,MS,SC],[("validation",SV)])
p("C29","Scores stay in [0, 9007199254740992] and time conversions are exact",
 "Every score computed from a request or the clock lies in [0, 9007199254740992], equals the request where it is in range, and is monotone in it; converting milliseconds to a time and back is the identity, and rounding a time to milliseconds is idempotent and never moves it by a millisecond or more.",
 ["inputs"],"all float64 scores and all instants representable in milliseconds","Tests check about ten constants.",
 [SC,DT,"internal/queue/utils/primitive_conversion.go","internal/queue/utils/math_helper.go"],[("clamping",SC),("conversions",DT)],["function results"])
p("C30","Metrics count what happened, per queue prefix",
 "Counters grow by exactly the number of acks, nacks, timeouts, unlocks, evictions, expirations, empty pulls and missing messages, labelled with the queue prefix; the total and oldest-message gauges equal the state at the last computation, and queues that vanished report 0.",
 H,"every history of operations and metric computations over prefixed queues","Tests check the map helper only.",
 ["internal/metrics/metrics.go","internal/metrics/metrics_map.go",Q,HK],[("counter calls",Q),("ComputeMetrics",HK)],["metrics endpoint"])
p("C31","Queue names split into prefix and suffix at the first '::'",
 "The prefix of a queue name is everything before its first '::' (the whole name if there is none) and the suffix everything after it, so that rejoining them gives the name back, consistently in messages, audit records and metrics.",
 ["inputs"],"every string","Tests check two names.",
 ["internal/queue/message/message.go",SV,"internal/audit/audit.go"],[("GetQueueParts","internal/queue/message/message.go")],["function results","storage documents","audit entries"])
p("C32","Startup connects with bounded retries",
 "Connecting to Redis or MongoDB succeeds as soon as the backend becomes reachable within the configured attempts, making the attempts one configured delay apart, gives up with an error after them (at once when retries are disabled or the URI is missing, or malformed for Redis), and stops early when cancelled.",
 ["configurations","fault_sequences"],"every number of initial failures against every attempts setting, retries on or off","Tests use an unreachable address.",
 [RC,MG],[("waitForSingleNodeClient",RC),("waitForClient",MG)],["creation results"])
p("C33","Count reports the stored messages",
 "Count for a queue equals the number of distinct messages added to exactly that queue and not removed, evicted or expired and swept, independent of their state; with no queue it counts all.",
 H,"every history, every queue name","Tests count after a single insert.",
 [SV,Q,MS,MG],[("Count",MS)])
p("C34","The server runs every housekeeping task on its own, shares its backends and ends cleanly",
 "A running server returns timed-out messages and unlocked messages to their queues, removes expired and exceeding messages, recovers a lost cache and reports its metrics without any client action, each task at its own configured delay and only if the housekeeper is enabled; a task that is not due changes nothing. It serves gRPC and metrics on the configured ports, and not at all where they are disabled. Several servers on the same backends act as one: no message is delivered twice at once and none is hidden. On SIGTERM, SIGINT or SIGQUIT in the middle of requests it ends with status 0, answers the requests it accepted and writes their audit entries; after that, or after a kill, a new server on the same backends delivers every message whose addition was confirmed and not removed, and none whose removal was confirmed.",
 ["histories","configurations","schedules","crash points"],"client histories against the real binary with every combination of enabled tasks and flags, one to three servers on shared backends, signals at any point of a load of several clients","Tests start the main function with one configuration and look at single effects.",
 ["internal/cmd/deckard/main.go","internal/shutdown/shutdown.go",HK],[("scheduleTask","internal/cmd/deckard/main.go"),("PerformShutdown","internal/shutdown/shutdown.go")],["gRPC responses of the running process","metrics endpoint","exit status","audit entries sent"])
p("C35","Metrics and logs are produced as configured",
 "With metrics enabled, the server answers at the configured port and path (default /metrics) with the text format of Prometheus and with nothing at other paths; with metrics disabled the port is closed. OpenMetrics is offered to clients that ask for it unless it is disabled. Every histogram has exactly the configured buckets (metrics.histogram.buckets, a comma separated list of numbers in which spaces do not matter; the documented default if it is not set or cannot be parsed), with cumulative counts. Every metric carries the name of the service, its version and the attributes set in OTEL_SERVICE_NAME and OTEL_RESOURCE_ATTRIBUTES as labels. Counts of acks, nacks and pulls of empty queues which were made are in the answer under the prefix of the queue. Logs are JSON (severity, message, name and version of the application) or, if configured, text; entries of level DEBUG appear exactly if debug is enabled.",
 ["configurations","histories"],"every combination of the settings of metrics and logs (valid and invalid bucket lists, any path, any resource attributes) with any short history of client calls","The existing tests start the metrics endpoint at most with its defaults; a setting that has no effect, or a label or bucket that is lost, shows only in the output of a server with that configuration.",
 ["internal/metrics/metrics.go","internal/metrics/registry.go","internal/logger/logger.go","internal/config/metrics.go"],[("getHistogramBuckets","internal/metrics/metrics.go"),("WrappedRegistry","internal/metrics/registry.go"),("ListenAndServe","internal/metrics/metrics.go"),("ConfigureLogger","internal/logger/logger.go")],["metrics endpoint of the running process","standard output of the running process"])
p("C36","Connections and the calls on them live as long as configured",
 "The server announces the end of a connection (GOAWAY) only if it had no call in progress for grpc.server.max_connection_idle or is older than grpc.server.max_connection_age (within its 10 % of jitter), and does announce it then; without these settings it never does. Calls in progress at that time are completed, however late their request is sent, and are cut only if they last longer than grpc.server.max_connection_age_grace after it; then they are cut. A client that sends nothing for grpc.server.keepalive_time (at least a second) is pinged, and not before, and its connection is closed without notice only if it does not answer for grpc.server.keepalive_timeout; then it is closed. Settings that are not set have no effect. Clients that use the library of gRPC do not notice ends of connections: none of their calls fails.",
 ["configurations","schedules","histories"],"every combination of the five settings (set or not, any duration in any notation), clients that are idle, busy, hanging in a call or silent","The tests never start a server with these settings: a setting applied to the wrong parameter, or a default that cuts long pulls, shows only in the times at which connections of different behaviour end.",
 [SV,"internal/config/service.go"],[("getGrpcKeepaliveParams",SV),("ServeGRPCServer",SV)],["frames of HTTP/2 as the clients receive them","gRPC responses"])
if __name__ == "__main__":
    d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(d, "properties.jsonl"), "w") as f:
        for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P))
