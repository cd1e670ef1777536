HIST = "stateful property-based testing (rapid): generated operation histories against a reference model, shrunk to a replay file"
H = "Holds on all generated histories (tens of thousands quick, hundreds of thousands thorough) of client operations, housekeeping sweeps and virtual time against an independent model of the pools; "
NOTES = {
 "C01": (HIST, "exploration", H + "trusts the model and rapid."),
}
for i in "C02 C03 C04 C05 C06 C07 C08 C09 C10 C12 C13 C14 C17 C33".split():
    NOTES[i] = NOTES["C01"]
NOTES["C11"] = (HIST + "; projection differential (a queue behaves as if the others did not exist)", "exploration", H + "and each queue's responses equal those of a run without the other queues.")
NOTES["C22"] = (HIST + "; differential against a new instance", "exploration", H + "after a flush the responses equal those of a new instance.")
NOTES["C24"] = (HIST + " with the expected audit trail", "exploration", H + "the audit entries of each operation are compared with those the model expects.")
NOTES["C30"] = (HIST + " with the expected growth of every counter and gauge", "exploration", H + "trusts the offline stub of the OpenTelemetry SDK.")
PBT = "property-based testing (rapid) of generated inputs against an explicit oracle, shrunk to a replay file"
NOTES["C23"] = (PBT + ": histories of environment changes, programmatic values and resets against a model of the precedence", "exploration", "Every configuration key after every step; the documented defaults are a table of the check.")
NOTES["C25"] = (PBT + ": generated shutdown schedules (requests, critical and background tasks ending in any order) against the required order of events", "exploration", "All the orders of up to nine tasks are sampled; that something does not happen too early is seen by waiting half a millisecond.")
NOTES["C26"] = (PBT + ": generated TLS configurations and clients against the documented policy, with real handshakes", "exploration", "Trusts crypto/tls for the handshake itself.")
NOTES["C27"] = (PBT + ": differential of the network against the handlers, round trips of generated messages between the published and the generated descriptors, sizes around the limits", "exploration", "Needs protoc to read the published contract.")
NOTES["C28"] = ("structured fuzzing of the network interface (rapid): arbitrary field values and bytes, with storage invariants after every rejection and delivery of everything stored at the end", "exploration", "Memory backends; a crash of the process is a violation.")
NOTES["C29"] = (PBT + ": clamping, monotonicity and round-trip laws, on the functions and through the service", "exploration", "Times are limited to what 64-bit nanoseconds can represent.")
NOTES["C31"] = (PBT + ": the split law on the functions and on the stored messages and metrics", "exploration", "Names are built from separators and pieces of separators.")
NA = {}
FLT = "fault enumeration by stateful property-based testing (rapid): each backend call of each generated history fails before or after taking effect, or the server or the cache dies there; "
NOTES["C16"] = (FLT + "a model of what a client may know is the oracle", "fault_enumeration", "Every single call of thousands of histories in four ways, and random outages; failures are injected at the storage and cache interfaces and, with Redis and MongoDB backends, at every command on the network.")
NOTES["C15"] = (FLT + "after the failures a bounded number of recovery runs must make everything available once", "fault_enumeration", "Every call of the recovery in four ways, client operations between any two calls, up to three batches of 4000 messages; with Redis and MongoDB backends at every command on the network.")
NOTES["C18"] = ("schedule exploration by property-based testing (rapid): a second operation at every backend call of the first against the sequential outcomes; race-detector stress of generated client scripts with exact accounting; linearizability (porcupine)", "exploration", "Two operations are interleaved at every backend call and at every Redis and MongoDB command; more clients, of up to three servers sharing backends, are run on the real scheduler with the race detector, with random yields.")
BK = "; the backend is a faithful fake server (harness/fake%s) reached through the real client and the network"
NOTES["C19"] = ("stateful property-based testing (rapid) of the cache interface against a reference model, standalone and cluster, plus histories of client operations" + BK % "redis", "exploration", "Trusts the fake Redis (its Lua, commands, slots and redirections), validated with the repository's own Redis test suites.")
NOTES["C20"] = ("stateful property-based testing (rapid) of two caches that share a server, with an invariant over every key of every command" + BK % "redis", "exploration", "Every key sent to the server is seen; trusts the fake Redis. Prefixes nested at a ':' are excluded.")
NOTES["C21"] = ("stateful property-based testing (rapid) of the storage interface against a reference model, with replication lag and times without primary, plus histories of client operations" + BK % "mongo", "exploration", "Trusts the fake MongoDB (a replica set with a late secondary), validated with the repository's own MongoDB test suites.")
NOTES["C32"] = (PBT + ": servers that fail a generated number of connections, cancellations in between, generated URIs, against the configured attempts and delays" + BK % "redis and harness/fakemongo", "exploration", "Loopback network; how long an attempt itself takes is the driver's business and not judged.")
NOTES["C34"] = ("stateful property-based testing (rapid) of the running server: generated configurations of one to three processes and client histories against a model of what the tasks must and must not do; generated loads interrupted by signals", "exploration", "The processes are built from /repo with a clock that the check moves; what has to happen must happen within 40 s, what must not happen is watched for several task periods. Backends are the fake servers or memory.")
NOTES["C35"] = ("property-based testing (rapid) of the running server: generated settings of metrics and logs and client calls; the scraped metrics and the log against what the settings promise", "exploration", "The exporter and the SDK of OpenTelemetry are the stand-ins of stubs/ (the modules are not available offline); they implement the parts of the API which deckard uses.")
NOTES["C36"] = (PBT + ": servers with generated keepalive settings and clients which speak HTTP/2 themselves; the times of announcements, pings, answers and closes against bounds from the settings", "exploration", "Lower bounds are exact (what must not happen too early is compared with times taken before it could start); what has to happen may be 12 s late. What must not happen at all is watched for 3.5 s.")
