# Source of /verif/properties.jsonl and /verif/MANIFEST.json.
# Run:  python3 /verif/tools/props.py
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


BOLT = "server/handler/boltdb/handler.go"
LDB = "pkg/ldbbolt/ldbbolt.go"
SRV = "pkg/ldapserver/server.go"
LH = "server/handler/ldif/handler.go"
NOBOLT = "There are no tests of the database-backed handler at all; the storage tests call the storage API directly, below the access check."

prop("C01", "Only the configured administrator can change the directory",
     "With the database backend, an add, delete, modify or rename changes stored data only if the requesting connection's identity equals the configured administrator DN and that DN is not empty. Every other requester gets a non-success result and nothing is written.",
     ["inputs", "histories"], "all requester identities, request contents and configurations, on every path through the four operations",
     NOBOLT, [BOLT, LDB], [("admin check before each storage call", BOLT), ("admin DN normalised when the backend is created", BOLT)],
     ["calls of the write transaction API", "result code returned by the handler"])
prop("C02", "Unauthenticated connections can never write",
     "While a connection is not authenticated, no add, delete, modify, rename or password-change request reaches any backend, whichever backend is registered. The client receives a non-success result for each such request.",
     ["inputs", "histories"], "all request packets and connection histories",
     "The tests call the request handlers with one fixed bound DN or an empty server; they never check the absence of a backend call on all paths.",
     ["pkg/ldapserver/add.go", "pkg/ldapserver/delete.go", "pkg/ldapserver/modify.go", "pkg/ldapserver/modifydn.go", "pkg/ldapserver/pwmodifyexop.go", SRV],
     [("anonymous check at the top of each request handler", "pkg/ldapserver/*.go")], ["interface calls into the backend"])
prop("C03", "A password is changed only by its owner or the administrator",
     "A password-change operation updates the password of an entry only if the authenticated identity is that entry's DN or the configured administrator DN, and never for an unauthenticated identity. If an old password is supplied it must match the stored one, otherwise nothing is changed.",
     ["inputs", "histories"], "all identities, target DNs and old/new password combinations",
     NOBOLT, [BOLT, LDB, "pkg/ldapserver/pwmodifyexop.go"],
     [("identity comparison on normalised DNs", BOLT), ("old password verification inside the transaction", LDB)], ["write transaction API", "handler result"])
prop("C04", "A connection acts only as the identity of its last successful bind",
     "The identity passed to a backend for any request is anonymous until a bind succeeds, and afterwards is the normalised DN of the most recent bind that succeeded on that same connection. A failed bind never gives the connection the DN it tried.",
     ["histories", "inputs"], "all sequences of requests on a connection",
     "No test drives the connection loop through sequences of binds and operations.",
     [SRV, "pkg/ldapserver/bind.go"], [("bound DN variable updated only on bind success", SRV)], ["identity argument of backend calls"],
     [("connection identity", "empty string is anonymous", SRV)])
prop("C05", "A bind succeeds only with verified credentials",
     "A simple bind is answered with success only if the given non-empty password was verified against the stored password of the entry named by the bind DN, or if both DN and password are empty and local anonymous access is enabled and the client is on a loopback address. Errors, panics and unsupported methods never end in success.",
     ["inputs", "configurations"], "all bind DNs, passwords, authentication methods, backend states and configurations",
     "No test performs a bind against any backend.",
     [BOLT, LH, "server/handler/ldif/middleware.go", "server/handler/ldif/entry.go", "pkg/ldapserver/bind.go"],
     [("empty password check", BOLT), ("password validation of the looked up entry", BOLT), ("recover to error code", "pkg/ldapserver/bind.go")], ["returned result code"])
prop("C06", "A password verifies only against its own stored hash",
     "Password verification reports a match only if the stored value's own scheme, applied to the presented password with the salt of the stored value, reproduces the whole stored value. Unknown schemes, malformed stored values and hashing errors never count as a match.",
     ["inputs"], "all passwords and stored values, all schemes, both build variants",
     "There are no tests of the password package.",
     ["pkg/ldappassword/ldappassword.go", "pkg/ldappassword/crypt.go", "pkg/ldappassword/crypt_disabled.go"],
     [("scheme switch with error default", "pkg/ldappassword/ldappassword.go"), ("constant time comparison", "pkg/ldappassword/ldappassword.go")], ["returned match flag"])
prop("C07", "Unauthenticated clients read nothing unless local anonymous is on",
     "A search from an unauthenticated connection returns entries only if local anonymous access is enabled in the configuration and the client's address is a loopback address. This holds for every backend.",
     ["inputs", "configurations", "histories"], "all searches on unauthenticated connections, all configurations and client addresses",
     "No test runs a search through a backend handler.",
     [LH, BOLT, "server/handler/ldif/middleware.go"], [("bind DN validation before searching", LH)], ["entries in the search result"])
prop("C08", "LDIF passwords and bind-only entries never appear in search results",
     "With the LDIF backend, no search result, for any requester, contains a password attribute value from the LDIF data in any letter case, and no search result contains entries from the bind-only configuration LDIF. Filters cannot match on password values either.",
     ["inputs", "configurations"], "all LDIF data, search requests and requesters",
     "No test covers the LDIF backend.",
     ["server/handler/ldif/ldif.go", LH, "server/handler/ldif/middleware.go"],
     [("password attribute separated when the tree is built", "server/handler/ldif/ldif.go"), ("middleware search delegates only", "server/handler/ldif/middleware.go")], ["attributes of entries handed out"])
prop("C09", "A password change stores a new Argon2 hash, never the clear text",
     "The password-change operation hands the backend only an Argon2 hash of the requested password, or of a freshly generated one when none was given, and never the clear text. The response carries the generated clear-text password exactly when one was generated and the backend reported success.",
     ["inputs"], "all password-change requests and backend results",
     "The existing test only parses requests; it never follows the new password to the backend or the response.",
     ["pkg/ldapserver/pwmodifyexop.go", "pkg/ldappassword/ldappassword.go", LDB], [("hash before calling the backend", "pkg/ldapserver/pwmodifyexop.go")], ["request passed to the backend", "response value"])
prop("C10", "Passwords and password hashes never reach the logs",
     "No log statement at any level receives a clear-text password, a stored password hash, or a value that contains one. This covers bind passwords, old and new passwords of password changes, password attribute values in add and modify requests, and secrets handled by the command line tools.",
     ["inputs", "programs"], "all log statements reachable with password-carrying data",
     "Tests do not inspect log output, and the leaking statement is often on an error or debug path.",
     ["pkg/ldapserver", "pkg/ldbbolt", "server/handler", "cmd/idmd"], [("only presence flags and DNs are logged", BOLT)], ["arguments of logging calls"])
prop("C11", "Each directory update is one all-or-nothing transaction",
     "Every add, delete, modify, rename and password change applies all its database writes inside one single write transaction. If any step inside fails, that transaction is rolled back and the operation returns an error.",
     ["crash_points", "fault_sequences", "inputs"], "every failure point of every storage step, every crash point",
     "Tests cannot make the database fail at each step, and a swallowed error only shows under such a fault.",
     [LDB], [("one update closure per operation, errors returned from it", LDB)], ["write transaction API", "errors of storage calls"])
prop("C12", "An update is acknowledged only after it is durably committed",
     "The database backend reports success for an add, delete, modify, rename or password change only if the corresponding storage operation ran for that request and its committed transaction returned no error. The database is always opened with syncing to disk enabled and is never written through a relaxed durability mode.",
     ["crash_points", "fault_sequences"], "all storage outcomes, all crash points after the acknowledgement",
     NOBOLT, [BOLT, LDB], [("result code derived from the storage error", BOLT), ("default bolt options", LDB)], ["returned result code"])
prop("C13", "Name index, child index and entry table always agree",
     "After every successful operation, each stored entry is reachable by its name, is listed exactly once under its parent (except the base entry), and no name or child record refers to an entry that is gone or to a different entry. Rename keeps the entry's identity and moves its name record.",
     ["histories", "inputs"], "all sequences of successful operations",
     "The storage tests check a handful of sequences through search results only.",
     [LDB], [("paired bucket updates within one transaction", LDB)], ["bucket writes per transaction"],
     [("dn2id / id2children / id2entry", "the three tables", LDB)])
prop("C14", "Add and rename never overwrite an existing entry",
     "An add, or a rename to a name that is already taken, fails with the already-exists error and changes nothing; this includes names that differ only in letter case. The check happens in the same transaction as the write.",
     ["histories", "inputs", "schedules"], "all names, concurrent adds and renames",
     "Tests try one duplicate add, sequentially.",
     [LDB, BOLT], [("existence lookup inside the update transaction", LDB)], ["name-index writes", "handler result code"])
prop("C15", "The directory stays a tree under its base",
     "An entry is added only beneath the configured base and only if its parent exists (the base entry itself needs none). Only entries without children can be deleted or renamed.",
     ["histories", "inputs"], "all add, delete and rename requests in any directory state",
     "Tests cover a few shapes and not the interplay of the checks on every path.",
     [LDB], [("parent lookup", LDB), ("children check", LDB), ("base suffix check", LDB)], ["bucket writes"])
prop("C16", "Entries are always addressed by their normalised name",
     "Every name used to look up, store, remove or compare an entry or identity in the database backend is the normalised form of the requested name, so requests that differ only in letter case or spacing of the name reach the same entry.",
     ["inputs", "histories"], "all spellings of a DN in every operation",
     "Tests use one spelling per operation in most cases.",
     [LDB, BOLT, "pkg/ldapdn/ldapdn.go"], [("normalisation at every entry point", LDB)], ["keys of the name index", "identity comparisons"])
prop("C17", "Modify applies changes in order and never removes the naming value",
     "The changes of one modify request are applied in request order, each to the result of the previous one, and touch only the named attributes. A change that would remove or replace the value used in the entry's name is rejected, and then nothing of the request is applied.",
     ["inputs"], "all modify requests against all entries",
     "Tests apply single changes; combinations of changes in one request are not covered.",
     ["pkg/ldapentry/ldapentry.go", LDB], [("accumulating entry", "pkg/ldapentry/ldapentry.go"), ("RDN checks", "pkg/ldapentry/ldapentry.go")], ["entry returned by modify"])
prop("C18", "Search returns only entries matching filter, scope and limits",
     "Every entry sent to a client satisfied the requested filter and scope, carries only requested attributes when attributes were requested, and no more entries are sent than the requested size limit. This holds for both backends.",
     ["inputs", "histories"], "all search requests and directory contents",
     "Tests exercise the filter function on a few entries, not the search path.",
     ["pkg/ldapserver/search.go", LH, "pkg/ldapserver/filter.go", "server/server.go"],
     [("front end filtering for the database backend", "pkg/ldapserver/search.go"), ("filtering in the LDIF search loop", LH)], ["entries sent"])
prop("C19", "Filter and scope evaluation follow LDAP semantics",
     "An and-filter holds only if all parts hold, an or-filter only if some part holds, a not-filter only if its part does not hold; equality, presence and substring match the named attribute only, ignoring letter case, and a substring filter requires every given component to match. Undecidable or malformed filters produce an error, never a match. An entry is in scope exactly if its name is the base (base scope), is directly below it (one level) or is the base or anywhere below it (subtree), ignoring letter case; an undefined scope is refused.",
     ["inputs"], "all filters and entries",
     "Tests use a fixed list of filters.",
     ["pkg/ldapserver/filter.go"], [("recursive evaluation", "pkg/ldapserver/filter.go"), ("comparison of parsed names", "pkg/ldapserver/filter.go")], ["match result and code"])
prop("C20", "The LDIF search index never hides a matching entry",
     "Using the index gives the same results as scanning all entries: every entry that satisfies the filter is among the candidates. If the index cannot decide a filter or a branch of it, all entries are scanned.",
     ["inputs"], "all filters and LDIF data",
     "No test covers the LDIF index.",
     ["server/handler/ldif/filter.go", "server/handler/ldif/index.go", "server/handler/ldif/ldif.go", LH],
     [("index writer and reader agree on keys", "server/handler/ldif/index.go"), ("fallback to a full walk", LH)], ["candidates offered to the filter"])
prop("C21", "A reload publishes a complete new data set or keeps the old one",
     "A reload makes new LDIF data visible only after it was read, parsed and indexed completely, in one atomic step; if anything fails the previous data stays in use. Each search works on one single version of the data from start to end, and a reload acts on the data the running server uses.",
     ["schedules", "fault_sequences", "histories"], "all interleavings of reloads and requests, all reload failures",
     "No test reloads; tests cannot enumerate interleavings.",
     [LH, "server/handler/ldif/middleware.go", "server/server.go"], [("atomic store of a finished value", LH), ("value loaded once per search", LH)], ["published value"])
prop("C22", "LDIF loading is all-or-nothing",
     "If any LDIF source file cannot be opened, read, expanded as a template, parsed, or contains a duplicate name, loading fails with an error and no partial data is served. No entry of a source file is silently skipped.",
     ["inputs", "fault_sequences"], "all LDIF inputs and I/O failures",
     "No test loads LDIF data through the backend; I/O faults are not injected.",
     ["server/handler/ldif/ldif.go", LH, "server/handler/ldif/middleware.go"], [("errors returned at each step", "server/handler/ldif/ldif.go")], ["error returned by the constructor or reload"])
prop("C23", "Serving requests never alters the loaded LDIF data",
     "Binds and searches against the LDIF backend never modify the loaded entries, their attributes or the index, so a request cannot change what a later or concurrent request sees.",
     ["schedules", "histories"], "all concurrent and successive requests",
     "No test issues two LDIF searches on one data set.",
     [LH, "pkg/ldapserver/filter.go", "pkg/ldapserver/search.go"], [("entry copied before attribute filtering", LH)], ["stores to shared entries"])
prop("C24", "Each request gets one final response with its own ID and type",
     "Every add, bind, compare, delete, extended, modify, rename and search request that the server keeps serving is answered with exactly one final response, which carries the request's message ID and the response type belonging to that request. An unbind is never answered.",
     ["inputs", "histories"], "all request packets, all handler outcomes",
     "No test drives the connection loop.",
     [SRV, "pkg/ldapserver/bind.go", "pkg/ldapserver/search.go", "pkg/ldapserver/extended.go"], [("one send per case of the dispatch", SRV)], ["packets written to the connection"])
prop("C25", "No client request can bring the server process down",
     "Whatever bytes a client sends, a failure while decoding or handling them ends at most that client's connection; the server process keeps running and serving others. Request handling never deliberately exits the process.",
     ["inputs"], "all byte sequences from clients",
     "Fuzzing the wire input is not part of the tests; one malformed packet is enough.",
     [SRV, "pkg/ldapserver", "server/handler"], [("recover in the connection goroutine", SRV)], ["panics escaping the connection goroutine"])
prop("C26", "Every connection is torn down exactly once",
     "However a connection ends (client close, protocol error, send failure, unbind or internal failure), its network connection is closed, each registered close callback runs exactly once with the connection's identity, and the current-connections gauge is decremented exactly once.",
     ["inputs", "fault_sequences"], "all ways out of the connection loop",
     "No test drives the connection loop.",
     [SRV], [("teardown after the request loop", SRV)], ["close calls", "connection gauge"])
prop("C27", "Operation counters are exact and never block the server",
     "Each served operation of a counted kind increments its own counter exactly once, the number of current connections and the highest such number so far are exact, and reading the counters returns every one of them. Counter updates are protected by their lock, which is always released, so enabling metrics never blocks requests.",
     ["schedules", "histories"], "all interleavings of operations and metric reads",
     "No test enables the statistics.",
     ["pkg/ldapserver/stats.go", SRV, "server/metrics.go"], [("lock and unlock around each update", "pkg/ldapserver/stats.go")], ["lock state at return", "counter fields"])
prop("C28", "An LDIF search always ends",
     "An LDIF search never waits for an entry that nobody will send: the producer always ends by closing its channel, it never blocks for ever on a consumer that went away, and a page request for an unknown or abandoned cookie is answered immediately.",
     ["schedules", "histories"], "all interleavings of producer and consumer, all paging sequences",
     "No test covers LDIF searches or paging.",
     [LH], [("deferred close", LH), ("select with context and timeout", LH), ("cookie table", LH)], ["channel operations"])
prop("C29", "LDIF templates read only small files below the LDIF directory",
     "A template can embed only files whose cleaned absolute path lies below the directory of the LDIF data, and only files of at most one mebibyte, each as a whole; anything else is an error and no file content is returned.",
     ["inputs"], "all file names used in templates",
     "No test covers the template functions.",
     ["server/handler/ldif/template.go"], [("prefix check on the cleaned path", "server/handler/ldif/template.go"), ("limited reader and size check", "server/handler/ldif/template.go")], ["file opens", "returned content"])
prop("C30", "The LDAPS listener never serves clear text",
     "The address configured for LDAPS is only ever served through TLS with the configured certificate and key; if the certificate or key is missing or cannot be loaded, startup fails instead. The plain LDAP and the LDAPS address are never swapped.",
     ["configurations"], "all listener and TLS configurations",
     "No test starts listeners.",
     [SRV, "server/server.go", "cmd/idmd/serve/serve.go"], [("TLS listener from loaded key pair", SRV), ("certificate check before start", "cmd/idmd/serve/serve.go")], ["listener passed to the accept loop"])
prop("C31", "Security settings reach the backend exactly as configured",
     "The administrator DN, base DN, local-anonymous switch, database and LDIF paths, listener addresses and TLS files given on the command line arrive unchanged, and not interchanged, at the server and the selected backend. The default for local-anonymous access is off and for the administrator DN is empty, and an unknown backend name is an error.",
     ["configurations"], "all command line configurations",
     "No test builds a server from flags.",
     ["cmd/idmd/serve/serve.go", "server/server.go", "server/config.go", BOLT, LH], [("field by field copy", "server/server.go")], ["option structs"])
prop("C32", "The password tools reject secrets below the required strength",
     "The password and user generation commands output a hash or entry for a supplied secret only if its estimated strength is at least the configured minimum, which defaults to 3, and an empty secret is rejected by the password command.",
     ["inputs", "configurations"], "all secrets and settings",
     "There are no tests of the command line tools.",
     ["cmd/idmd/gen/passwd/passwd.go", "cmd/idmd/gen/newusers/newusers.go", "pkg/ldappassword/ldappassword.go"], [("strength check before hashing", "cmd/idmd/gen/passwd/passwd.go")], ["calls that emit output"])
prop("C33", "Command line tools never report success after a failure",
     "Loading, exporting, hashing, creating users and serving end with exit status 0 only if every step they perform succeeded; any error is reported on standard error with a non-zero status. Bad input lines are reported as errors, not skipped.",
     ["inputs", "fault_sequences"], "all inputs and I/O failures of the commands",
     "There are no tests of the command line tools.",
     ["cmd/idmd", "cmd/idmd/boltdb/load/load.go", "cmd/idmd/boltdb/export/export.go", "cmd/idmd/gen/passwd/passwd.go", "cmd/idmd/gen/newusers/newusers.go"],
     [("errors returned and turned into exit status", "cmd/idmd")], ["returned errors", "process exit"])
prop("C34", "Database memory is never used after its transaction",
     "No value that points into the database's memory map (a bucket value, key, bucket or transaction) is returned, stored or kept beyond the transaction that produced it, and such memory is never written to.",
     ["schedules", "histories"], "all transactions and all concurrent writers",
     "A stale mapping only misbehaves when a later transaction reuses the page.",
     [LDB], [("values decoded inside the transaction", LDB)], ["values leaving a transaction closure"])
prop("C35", "The LDIF backend and the export command are read-only",
     "With the LDIF backend every add, delete, modify, rename and password change is refused with a non-success result. The export command opens the database read-only and performs no write.",
     ["inputs", "configurations"], "all requests to the LDIF backend, all export runs",
     "No test covers the LDIF backend or the export command.",
     [LH, "server/handler/ldif/middleware.go", "cmd/idmd/boltdb/export/export.go", LDB], [("constant refusal", LH), ("read-only open option", "cmd/idmd/boltdb/export/export.go")], ["result codes", "transactions opened"])
prop("C36", "Generated secrets come from the cryptographic random source",
     "Every generated password and every search paging cookie is drawn from the cryptographically secure random source, with each password character chosen independently over the whole character set and the configured length. An error of the random source aborts the generation.",
     ["inputs"], "all generations",
     "Statistical weakness is invisible to unit tests.",
     ["pkg/ldappassword/ldappassword.go", LH, "cmd/idmd/gen/passwd/passwd.go", "server/server.go"], [("crypto/rand per character", "pkg/ldappassword/ldappassword.go")], ["random sources reachable"])
prop("C37", "Special characters in names are always escaped when normalising",
     "A normalised name lists the folded attribute types and values of the given name in their order. Every character of an attribute type or value that has a meaning in the name syntax, every control character, every non-ASCII byte and every leading or trailing blank is escaped, so two different names never get the same normalised form by injection of separators.",
     ["inputs"], "all attribute types and values in names",
     "The test compares four fixed names.",
     ["pkg/ldapdn/ldapdn.go"], [("byte-wise escaping", "pkg/ldapdn/ldapdn.go")], ["bytes emitted for each input byte"])
prop("C38", "Decoded requests carry exactly what the client sent",
     "Each field of a decoded add, delete, modify, rename, search, bind and password-change request that a backend receives comes from the corresponding element of the client's packet, complete and unmodified. Packets with missing or surplus elements, or with values of the wrong type, are refused before a backend is called.",
     ["inputs"], "all request packets",
     "Tests decode a few well-formed packets per type.",
     ["pkg/ldapserver/add.go", "pkg/ldapserver/delete.go", "pkg/ldapserver/modify.go", "pkg/ldapserver/modifydn.go", "pkg/ldapserver/search.go", "pkg/ldapserver/pwmodifyexop.go", "pkg/ldapserver/bind.go"],
     [("element by element decoding", "pkg/ldapserver/*.go")], ["request passed to the backend"])
prop("C39", "The client sees the result the backend returned",
     "The result code sent for an add, delete, modify, rename, bind, search or password change is the one the backend returned, and a backend error is never turned into a success response. Success is sent only after a backend was called and reported success.",
     ["inputs", "fault_sequences"], "all backend outcomes",
     "No test follows a backend result to the wire.",
     [SRV, "pkg/ldapserver/add.go", "pkg/ldapserver/delete.go", "pkg/ldapserver/modify.go", "pkg/ldapserver/modifydn.go", "pkg/ldapserver/extended.go", "pkg/ldapserver/search.go", "pkg/ldapserver/bind.go"],
     [("error to result code mapping", SRV)], ["result code encoded into the response"])
prop("C40", "The database file is private to the server user",
     "The database file is always created with permissions for its owner only.",
     ["configurations"], "all ways the database is opened", "Tests do not look at the file mode.",
     [LDB], [("file mode passed when opening", LDB)], ["open call"])
prop("C45", "Search misses no matching entry and no requested attribute",
     "A search that succeeds returns every entry of the directory that is in scope and matches the filter, unless the client's size limit or page size ends it first, and each entry with its own name, all of its requested attributes (all attributes if none or a star was requested) and all their values, once each.",
     ["inputs", "histories"], "all search requests and directory contents",
     "No test runs a search against a directory tree; missing entries or values are not noticed by tests that look for a few.",
     ["pkg/ldapserver/search.go", LH, LDB, BOLT, "server/server.go"],
     [("subtree enumeration", LDB), ("loop over the offered entries", "pkg/ldapserver/search.go"), ("attribute encoding", "pkg/ldapserver/search.go")], ["entries sent"])
prop("C46", "Add, rename and password change store exactly what was asked",
     "An add stores an entry with the requested name and all requested attributes and values and nothing else. A rename stores the entry with its new name and new naming values, removes the old naming values if and only if that was requested, and changes nothing else. A password change replaces the password of the entry and changes nothing else.",
     ["inputs"], "all add, rename and password requests, and stored entries",
     "Tests add and read a few entries; lost or changed values show only for repeated attributes, several naming values or attributes differing in letter case.",
     [LDB, "pkg/ldapentry/ldapentry.go", BOLT],
     [("EntryFromAddRequest", "pkg/ldapentry/ldapentry.go"), ("EntryModifyDN", LDB), ("UpdatePassword", LDB)], ["stored entry contents"])
prop("C41", "Normalisation of names is a canonical form",
     "Two names that LDAP considers equal (including the order of values in a multi-valued naming attribute and equivalent escapings) always have the same normalised form, and normalising twice changes nothing.",
     ["inputs"], "all pairs of names", "The test compares four fixed names.",
     ["pkg/ldapdn/ldapdn.go"], [("case folding and escaping", "pkg/ldapdn/ldapdn.go")], ["normalised strings"])
prop("C42", "Stored and exported entries round-trip",
     "An entry that is added and later searched or exported has exactly the attributes and values that were added, byte for byte.",
     ["inputs", "histories"], "all entries", "Tests use a few plain ASCII entries.",
     [LDB, "pkg/ldapentry/ldapentry.go", "cmd/idmd/boltdb/export/export.go"], [("gob encoding and LDIF marshalling", LDB)], ["returned entries"])
prop("C43", "Paged searches return every match exactly once",
     "The concatenation of all pages of a paged LDIF search equals the result of the same search without paging.",
     ["histories", "schedules"], "all page sizes, directories and interleavings", "No test covers paging.",
     [LH], [("one producer per cookie", LH)], ["pages"])
prop("C44", "Concurrent operations are linearisable",
     "Any concurrent history of operations on the database backend has the same results as some sequential order that respects real time.",
     ["schedules"], "all interleavings", "Tests are sequential.",
     [LDB, BOLT], [("bolt transactions", LDB)], ["results of operations"])

NA = {
    "C41": "Quantifies over pairs of runtime strings and over the behaviour of a third-party parser and case folder; the tree itself documents that multi-valued RDN order is not normalised. No structural rule is equivalent to it; the escaping clause that is structural is claimed as C37 and use of the normal form as C16.",
    "C42": "Round-trip equality of third-party encoders (gob, LDIF) over runtime values; nothing in the shape of this repository's code decides it.",
    "C43": "Equality of result histories over page sizes and interleavings; only the channel discipline is structural, and that part is claimed as C28.",
    "C44": "Linearisability of histories is a run-time ordering property; the structural part (one transaction per operation, checks inside it) is claimed as C11 and C14.",
}

CLAIMED = []  # filled by claimed.py: (id, technique, level_note)
exec(open(os.path.join(V, "tools", "claimed.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")

ids = {p["id"] for p in P}
claimed = {c[0] for c in CLAIMED}
assert claimed <= ids
na = []
for p in P:
    if p["id"] not in claimed:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "Check not built yet.")})
m = {
    "version": 1,
    "setup_cmd": "bash /verif/setup.sh",
    "checks": [{
        "property": i,
        "quick_cmd": "bash /verif/check.sh " + i,
        "thorough_cmd": "bash /verif/check.sh " + i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": t, "level": "other", "level_note": n,
    } for i, t, n in CLAIMED],
    "not_applicable": na,
    "notes": "All checks are one static analyser (/verif/checker) run on the current source of /repo; see DESIGN.md.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties,", len(claimed), "claimed")
