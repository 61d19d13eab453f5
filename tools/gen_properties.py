#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that entries stay readable)."""
import json, os
P = []
IMPL = "engine/src/command/impl/"
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = hook or "none"
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

ST = ("keyspace", "the map from key to typed value every command reads and writes", "engine/src/state/mod.rs")
p("C01", "A history of commands behaves like a sequential typed key-value store",
  "Executing any sequence of commands yields, for every command, exactly the value or error that a sequential store of typed values would give, and leaves exactly the keyspace that store would have. "
  "Commands resolve their type from the request, else from the stored value, else from the command's default; a command touches only the keys it names.",
  ["histories", "inputs"], "Every finite sequence of the 16 commands over any keys, arguments and optional requested key types.",
  "Unit tests run one or two fixed commands on a fresh engine; they cannot cover how an arbitrary history of typed and untyped commands over shared keys composes.",
  ["engine/src/hop.rs", IMPL + "*.rs", "engine/src/state/mod.rs"],
  [("command dispatch", "engine/src/hop.rs"), ("command implementations", IMPL)], [ST],
  ["response bytes of each dispatched request", "the whole keyspace after each step"])
p("C02", "A value that was set is read back exactly, whatever its type",
  "Setting a key to a value of any of the eight types answers with that value and overrides whatever the key held before, and every later read returns exactly that value (same type, bytes, item order, bit pattern, and members) until the key is next changed. "
  "A read that requests a type returns the value if it has that type and otherwise fails without returning anything.",
  ["inputs", "histories"], "Every value of the eight types that a request can carry (empty, huge, non-UTF-8, NaN, duplicate members, 255 arguments), over any previous value of the key.",
  "Tests set a handful of tiny fixed values of each type on empty keys; type/length/encoding boundaries and overrides of one type by another are not sampled.",
  [IMPL + "set.rs", IMPL + "get.rs", "engine/src/command/request/mod.rs", "engine/src/command/response/mod.rs"],
  [("set by type", IMPL + "set.rs"), ("argument conversion", "engine/src/command/request/mod.rs"), ("value writing", "engine/src/command/response/mod.rs")], [ST],
  ["response to set and get", "stored value"])
p("C03", "A command that fails changes nothing and answers only with its error",
  "When a command fails - wrong or missing type, missing key or argument, malformed value, unmet precondition - the keyspace is exactly what it was before, including keys the command did not name, and no part of a response value is produced. "
  "Appending to, incrementing or renaming onto something unsuitable therefore never creates, truncates or replaces a key.",
  ["inputs", "histories"], "Every request (valid or not for its command) against every reachable keyspace.",
  "Tests assert the error value of a few failing commands but never compare the keyspace before and after, and do not combine failures with arbitrary prior state.",
  ["engine/src/hop.rs", IMPL + "*.rs"], [("error returns of each command", IMPL)], [ST],
  ["keyspace before/after", "response buffer after an error"])
p("C04", "Incrementing and decrementing keep exact counters",
  "Increment and decrement (by one or by an amount) change an integer key by exactly that amount with wrap-around two's-complement arithmetic and a float key by exactly that float, answer with the value that is stored, and create a missing key starting from zero. "
  "A requested float or integer type must match the stored type, no request type uses the stored type, and decrementing is the exact opposite of incrementing.",
  ["inputs", "histories"], "Every sequence of the four counter commands with any amounts (extremes, NaN, infinities, negative zero, short or long amounts), any stored value and any requested type.",
  "Tests use amounts such as 1, 2 and 4 on fresh keys; overflow, sign, typed/untyped combinations and long mixed histories are not reached.",
  [IMPL + "increment_by.rs", IMPL + "decrement_by.rs", IMPL + "increment.rs", IMPL + "decrement.rs"],
  [("shared arithmetic", IMPL + "increment_by.rs")], [ST], ["response number", "stored value"])
p("C05", "Appending concatenates in order and length counts what is stored",
  "Appending to bytes, a string or a list stores and answers the old content followed by all appended arguments in the given order, creating a missing key, and anything else fails. "
  "Length always answers the exact size of the stored value: bytes for bytes, characters for strings, items for lists, maps and sets.",
  ["inputs", "histories"], "Every sequence of appends with 1 to 254 arguments of any size and content (multi-byte, non-UTF-8, empty) and lengths, typed or untyped.",
  "Tests append one ASCII argument once; ordering over many arguments and calls, Unicode counting and growth past one-byte/two-byte sizes are not covered.",
  [IMPL + "append.rs", IMPL + "length.rs"], [("append by type", IMPL + "append.rs"), ("length by type", IMPL + "length.rs")], [ST],
  ["response to append and length", "stored value"])
p("C06", "Renaming and deleting move or remove exactly one value",
  "Renaming moves the value unchanged to the new name, only if the source exists and the new name is free, and answers with the new name; deleting removes exactly the named key and answers with its name, and fails if it does not exist. "
  "In any sequence of these, each value that was stored is either under exactly one name or was explicitly deleted, and no other key is affected.",
  ["inputs", "histories"], "Every sequence of renames and deletes (chains, cycles, self-renames, prefixes of names, onto taken names) mixed with writes, over values of every type.",
  "Tests rename one key once; conservation of values across chains, cycles and conflicts is a statement about histories.",
  [IMPL + "rename.rs", IMPL + "delete.rs", "engine/src/state/mod.rs"], [("rename", IMPL + "rename.rs"), ("delete", IMPL + "delete.rs")], [ST],
  ["keyspace after each step", "responses"])
p("C07", "Queries agree with the stored data and change nothing",
  "Exists, is, type, keys, length, get and echo answer exactly what the stored data implies - exists and is are true only if they hold for every one of the given keys, type and is agree with each other, keys lists each member name of a map exactly once, echo lists its arguments in order. "
  "None of them ever changes the keyspace.",
  ["inputs", "histories"], "Every keyspace of values of the eight types and every query with 0 to 255 keys or arguments, typed or untyped.",
  "Tests query one or two keys right after creating them; all-quantified answers over many mixed keys and agreement between queries are not sampled.",
  [IMPL + x for x in ("exists.rs", "is.rs", "type.rs", "keys.rs", "length.rs", "get.rs", "echo.rs")],
  [("queries", IMPL)], [ST], ["responses", "keyspace before/after"])
p("C08", "No request can crash the engine or reach reserved keys",
  "Every well-formed request, however odd its arguments, is answered with a value or an error and leaves the engine usable; it never panics. "
  "Keys starting with the reserved prefix and empty keys cannot be read, created, changed or removed by any command, and are reported as not existing.",
  ["inputs", "histories"], "Every decodable request (any command, any requested type, 0 to 255 arguments of any bytes, including the reserved prefix and near misses of it), in any order.",
  "Tests only use sensible arguments; absence of panics is a statement about all inputs.",
  ["engine/src/hop.rs", "engine/src/state/mod.rs", "engine/src/command/request/mod.rs"],
  [("key validation", "engine/src/hop.rs"), ("reserved prefix", "engine/src/state/mod.rs")], [ST], ["panics", "responses", "keyspace"])
p("C09", "A built request is decoded as the same request",
  "Any request made with the request builder - any command, optional key type, and up to 255 arguments or any value - encodes to bytes that decode to a request with the same command, key type and arguments (count, order, content, by index, by range, and as a key), and the encoding follows the documented wire format. "
  "A decoded request turned back into a builder and extended still decodes to all of its arguments.",
  ["inputs"], "Every builder call sequence with arguments of 1 byte to megabytes.",
  "Tests decode a few requests with at most a couple of tiny arguments; sizes whose length needs several bytes, 255 arguments, and typed requests in combination are not sampled.",
  ["engine/src/command/request/builder.rs", "engine/src/command/request/context.rs", "engine/src/command/request/mod.rs"],
  [("builder", "engine/src/command/request/builder.rs"), ("parser", "engine/src/command/request/context.rs"), ("argument access", "engine/src/command/request/mod.rs")],
  [], ["encoded bytes", "decoded request"])
p("C10", "Requests decode the same however the byte stream is split",
  "A stream of concatenated requests fed to one parser in growing pieces of any sizes yields exactly those requests in order, each as soon as its last byte is there and never before, each consuming exactly its own bytes. "
  "After finishing or rejecting a request the parser is ready for the next one as if it were new.",
  ["inputs", "schedules"], "Every sequence of requests and every way of splitting its bytes into chunks, including single bytes and chunks that straddle requests, and invalid requests in between.",
  "Tests feed whole requests or one fixed split; the number of splits is exponential.",
  ["engine/src/command/request/context.rs"], [("incremental parser", "engine/src/command/request/context.rs")], [], ["results of each feed"])
p("C11", "The request parser accepts exactly the wire format on arbitrary bytes",
  "For any bytes whatsoever the request parser neither panics nor reads past its input: it yields the request those bytes encode, asks for more, or reports the specific error (unknown command, unknown key type), exactly as the wire format defines. "
  "An accepted request never includes bytes beyond its end.",
  ["inputs"], "All byte strings, biased to near-valid mutations of encodings.",
  "Tests feed a few malformed inputs; totality over byte strings needs generated search.",
  ["engine/src/command/request/context.rs", "engine/src/command/command_id.rs"], [("parser stages", "engine/src/command/request/context.rs")], [], ["parse result"])
p("C12", "The request builder never produces a request it cannot represent",
  "The request builder refuses empty arguments, empty values and anything that would exceed 255 arguments (or any argument for commands without arguments) with the specific error, and after a refusal the request under construction is exactly as before. "
  "Everything it does not refuse is present in the built request.",
  ["inputs"], "Every sequence of builder calls with values of every type around the limits (254 to 256 arguments, maps of 127/128 entries).",
  "Tests push a fixed number of arguments once; combinations of value sizes with a partially filled builder are not sampled.",
  ["engine/src/command/request/builder.rs"], [("limits", "engine/src/command/request/builder.rs")], [], ["builder results", "encoded bytes"])
p("C13", "A response is decoded as the same response",
  "Every response - a value of any of the eight types, a dispatch error or a parse error - encodes to bytes in the documented wire format whose length header is exact, and decodes to the same response. "
  "Several responses written to one buffer decode in order, each consuming exactly its own bytes.",
  ["inputs"], "Every representable value (empty collections, 255-byte map keys, 65535-byte set items, 65535 items, NaN payloads, multi-byte text).",
  "Tests decode single tiny responses per type.",
  ["engine/src/command/response/mod.rs", "engine/src/command/response/context.rs"],
  [("writers", "engine/src/command/response/mod.rs"), ("parser", "engine/src/command/response/context.rs")], [], ["encoded bytes", "decoded response"])
p("C14", "A response decodes however it arrives, and bad bytes never crash the client",
  "Fed with growing prefixes of a response, the response parser asks for a number of bytes that is at least one and never more than the response still lacks, and finishes exactly when it is complete. "
  "For any bytes at all it neither panics nor loops: it finishes, asks for more, or reports a specific error, after which it can parse the next response.",
  ["inputs", "schedules"], "All byte strings and all splits of valid, truncated and mutated responses.",
  "Tests feed complete responses or one split per type.",
  ["engine/src/command/response/context.rs"], [("incremental parser", "engine/src/command/response/context.rs")], [], ["instructions of each feed"])
p("C15", "Every identifier has one stable number and name",
  "Commands, key types, errors and response types have the documented distinct wire numbers; converting a number or name to an identifier and back gives the same number or name, and every other number or name is rejected. "
  "Each command's declared use of keys agrees with how it is decoded and executed.",
  ["inputs"], "All 256 byte values and all strings near the command names.",
  "Tests check some conversions only in one direction; clients written in other languages depend on every number.",
  ["engine/src/command/command_id.rs", "engine/src/command/error.rs", "engine/src/state/mod.rs", "engine/src/command/response/mod.rs", "engine/src/command/request/context.rs"],
  [("conversions", "engine/src/command/command_id.rs")], [], ["conversion results"])
p("C16", "Statistics count every command and session exactly once",
  "At any point the reported statistics equal the number of commands that succeeded, commands that failed, sessions started and sessions ended so far, with a command counted when it finishes. "
  "Counting is exact also when commands run concurrently, and a command's statistics reply does not include itself.",
  ["histories", "schedules"], "Every history of commands and session changes, from one or many threads.",
  "Tests check one count after one command.",
  ["engine/src/hop.rs", IMPL + "stats.rs", "engine/src/metrics.rs", "engine/src/session/manager.rs", "lib/metrics/src/lib.rs"],
  [("counting", "engine/src/hop.rs"), ("reporting", IMPL + "stats.rs")], [("counters", "successes, errors, sessions", "lib/metrics/src/lib.rs")], ["stats response", "metrics reader"])
p("C17", "Concurrent commands on a key take effect one at a time",
  "When several threads use one engine at once, every command on a single key (typed set, get, delete, typed append, counters, single-key exists/is/type, typed length) appears to take effect atomically at one moment between its call and its return: the answers and the final keyspace are those of some sequential order of the commands. "
  "In particular no increment or append is lost, duplicated or torn.",
  ["schedules", "histories"], "Every interleaving of the threads' accesses to the keyspace for every small set of per-thread command sequences on shared keys.",
  "The tests are single-threaded; interleavings are not exercised at all.",
  ["engine/src/state/mod.rs", IMPL + "*.rs", "engine/src/hop.rs"], [("atomic entry access", "engine/src/state/mod.rs")], [ST],
  ["per-thread answers", "final keyspace"], "a call at the start of each keyspace operation (cfg hop_verif) so that a scheduler decides the order in which threads perform them")
p("C18", "Concurrent renames never lose, overwrite or duplicate a value",
  "When threads rename keys onto names that other threads create, delete or rename onto at the same time, every renamed value ends up under exactly one name, unchanged: a rename never replaces a value somebody else stored under the new name, at most one of several competing renames of a key succeeds, and a failed rename leaves its source in place. "
  "This holds for every interleaving of the threads.",
  ["schedules", "histories"], "Every interleaving of small per-thread sequences of renames from one or several threads with sets, appends, increments and deletes of the new names by others (nobody re-creates a source while it is being renamed).",
  "The tests are single-threaded.",
  [IMPL + "rename.rs", "engine/src/state/mod.rs"], [("rename steps", IMPL + "rename.rs")], [ST], ["answers", "final keyspace"], "same hook as C17")
p("C19", "The in-memory client does what its methods say",
  "Every client method, with every configuration of its request (typed getters and setters, by-amount counters, one or many keys, typed lengths), performed on an in-memory instance has the effect and result of the corresponding command, returned as the Rust type the method promises, and refuses what cannot be sent with an error. "
  "No call panics and a refused call has no effect.",
  ["histories", "inputs"], "Every sequence of client calls with any keys and values, including types that do not match what is stored.",
  "Doc tests call each method once with one fixed value.",
  ["client/src/lib.rs", "client/src/request/", "client/src/backend/memory.rs", "client/src/model.rs"],
  [("request futures", "client/src/request/"), ("backend", "client/src/backend/memory.rs")], [], ["results of awaited calls"])
p("C20", "The server answers every request exactly once and in order",
  "Over a TCP connection the server answers each request with exactly the response its command produces, in request order, however the bytes are split or pipelined and however large they are, and it processes everything received before the client stops sending. "
  "All connections operate on the same data.",
  ["histories", "schedules", "inputs"], "Every sequence of requests (pipelined, tiny or megabyte sized), every chunking of the stream, one or several connections.",
  "The server has no tests at all.",
  ["server/src/main.rs", "engine/src/command/request/context.rs"], [("connection loop", "server/src/main.rs")], [], ["bytes received from the socket"])
p("C21", "The networked client behaves like the in-memory client",
  "Every client call made through a connection to a server gives the same result as the same call on an in-memory instance with the same history, also when many tasks share one connection (each call gets its own response) and however the response bytes are fragmented. "
  "A connection that is closed or sends a malformed or wrongly typed response makes calls return an error rather than hang, panic or return a wrong value.",
  ["histories", "schedules", "fault_sequences", "inputs"], "Every sequence of calls, interleaving of tasks over a connection, fragmentation of responses, and truncation or corruption of them.",
  "There are no tests of the server backend.",
  ["client/src/backend/server.rs", "client/src/backend/memory.rs", "client/src/lib.rs"], [("send and wait", "client/src/backend/server.rs")], [], ["results of awaited calls"])
p("C22", "Command lines are parsed into the request they spell",
  "A command line - a command name with an optional type suffix, then keys and arguments separated by single spaces - becomes exactly the request it spells, with arguments encoded according to the type, and anything else is rejected with the specific error. "
  "No input makes the parser panic.",
  ["inputs"], "All strings, biased to lines made of real commands, types (and aliases), numbers and near misses of them.",
  "Tests parse a dozen fixed lines.",
  ["cli/lib/src/parse.rs"], [("line parser", "cli/lib/src/parse.rs")], [], ["parsed request or error"])
p("C23", "The command line prints the true result of each command",
  "Processing a command line performs the command it spells and prints its complete result (lists, maps and sets in full, in the documented form), or the message for the specific error, with the effects of that command on the data. "
  "A failing line has no effect and does not disturb later lines.",
  ["histories", "inputs"], "Every sequence of command lines over a shared instance.",
  "Tests process single fixed lines.",
  ["cli/lib/src/process.rs", "cli/lib/src/print.rs", "cli/bin/src/main.rs"], [("processing", "cli/lib/src/process.rs"), ("printing", "cli/lib/src/print.rs")], [], ["printed output", "data after each line"])
p("C24", "Sessions have unique identifiers and are removed once",
  "Every added session gets an identifier no other session of the engine ever had and keeps its client token, adding never blocks or fails, and removing succeeds exactly once for each session that was added and never otherwise. "
  "This holds when sessions are added and removed concurrently.",
  ["histories", "schedules"], "Every history of additions and removals, from one or many threads.",
  "There are no tests of the session manager.",
  ["engine/src/session/manager.rs", "engine/src/session/mod.rs"], [("registry", "engine/src/session/manager.rs")], [("sessions", "live sessions by identifier", "engine/src/session/manager.rs")], ["identifiers", "results of removal", "metrics"])
p("C25", "Subscriptions exist exactly between subscribing and unsubscribing",
  "A session can subscribe once to each key, independently of other sessions and keys; the subscription can be retrieved by exactly that pair until it is unsubscribed or its session removed, and each operation reports whether it had an effect. "
  "Removing a session removes all of its subscriptions and closes them, and only those.",
  ["histories", "schedules"], "Every history of subscribe, unsubscribe, get and session removal over several sessions and keys.",
  "Tests subscribe and unsubscribe one session once.",
  ["engine/src/pubsub/manager.rs", "engine/src/pubsub/mod.rs"], [("registry", "engine/src/pubsub/manager.rs")],
  [("registry", "subscriptions by session and key", "engine/src/pubsub/manager.rs")], ["results of operations", "closing of channels"],
  "a constructor for session identifiers (cfg hop_verif), since none is public")
p("C26", "Metrics read back exactly what was written while the instance lives",
  "Counters equal the number of increments and gauges the last written value, per name and per instance, as seen by every reader; a snapshot keeps the values of the moment it was taken. "
  "Readers and writers work exactly as long as the instance exists and report otherwise afterwards, and concurrent increments are never lost.",
  ["histories", "schedules"], "Every history of increments, gauge writes, snapshots, clones and drops, from one or many threads.",
  "Tests perform two or three writes from one thread.",
  ["lib/metrics/src/lib.rs"], [("readers and writers", "lib/metrics/src/lib.rs")], [("counters and gauges", "values by name", "lib/metrics/src/lib.rs")], ["reads"])
p("C27", "A timer measures exactly the time between start and stop",
  "A timer starts once and stops once until it is reset, reports running exactly in between, and once stopped always reports the exact difference of the two monotonic clock readings. "
  "Reset makes it equal to a new timer.",
  ["histories", "inputs"], "Every sequence of start, stop, reset, clone and queries under every non-decreasing sequence of clock readings.",
  "Tests follow one fixed sequence on the real clock, where a wrong unit or a dropped field passes.",
  ["lib/timer/src/lib.rs"], [("timer", "lib/timer/src/lib.rs")], [("start and stop", "clock readings", "lib/timer/src/lib.rs")], ["results of operations"])
p("C28", "The embedded keyspace and value types behave like a map of tagged values",
  "Used directly as a library, the keyspace's insert, remove, lookup (shared, mutable, or inserting a default) and type queries behave as a map, its clones share one content, and lookups with a default never replace an existing value. "
  "A value reports exactly one type, its accessors give its content for that type only, and changes made through mutable access are what later reads see.",
  ["histories", "inputs"], "Every history of operations on the keyspace through any clone, with values of every type.",
  "Tests insert one or two keys.",
  ["engine/src/state/mod.rs", "engine/src/state/value.rs"], [("keyspace", "engine/src/state/mod.rs"), ("values", "engine/src/state/value.rs")], [ST], ["results of operations"])
p("C29", "A misbehaving connection harms nobody else",
  "Whatever one connection sends - garbage, unknown commands, half a request, an abrupt disconnect - the server keeps serving every other and every later connection with correct answers, and data is only changed by the complete valid requests it sent. "
  "Invalid input is answered with the specific parse error and the same connection can go on to send valid requests.",
  ["fault_sequences", "inputs", "schedules"], "Every byte stream and disconnection point of a faulty connection, interleaved with well-behaved ones.",
  "The server has no tests.",
  ["server/src/main.rs"], [("connection loop", "server/src/main.rs")], [], ["responses on all connections"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
