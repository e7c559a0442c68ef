#!/usr/bin/env python3
# Generates properties.jsonl (kept in one place so it stays easy to edit).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        observe_at=observe,hook_needed=hook)))

p("C01","No client byte stream can crash or wedge the server",
 "Whatever bytes a client sends on a connection, in whatever pieces, the server process never panics and the handling of that connection either keeps answering or ends with the connection closed; it never spins without consuming input. Input that is not a valid request is rejected, skipped or ends that connection, and requests from well-behaved clients keep being served.",
 ["inputs","histories"],"every byte sequence, every split into reads, ended by EOF or a read error at any point",
 "The existing parser tests feed seven well-formed streams; nothing exercises the connection handler, malformed frames or truncated streams.",
 ["server/handler.go","resp/parser.go","resp/data.go"],
 [("frame reader validates line length, terminator and declared sizes","resp/parser.go readline/parse*"),("connection loop ends on error","server/handler.go Handle")],
 ["replies written to the connection","connection closed","process panic"])
p("C02","Requests are decoded exactly, whatever their bytes or chunking",
 "For every sequence of requests (arrays of bulk strings with arbitrary binary content, including empty strings and embedded CR LF) written back to back on a connection, the arguments the server executes are exactly the bytes sent, in order, for every request, independently of how the transport splits the stream into reads. A complete request is executed without waiting for further bytes.",
 ["inputs","histories"],"every argument vector and content, every pipelining, every chunking of the stream",
 "Tests decode a handful of literal streams delivered in one read.",
 ["resp/parser.go","resp/data.go","server/handler.go"],
 [("length-prefixed bulk read","resp/parser.go readline"),("array assembly state","resp/parser.go parse")],
 ["decoded command arguments","replies"])
p("C03","Each request gets exactly one well-formed reply, in order",
 "For every request executed the server writes exactly one RESP frame, in request order, and that frame decodes to the result of the command: binary-safe bulk strings with exact byte lengths, integers in decimal, nil as null, arrays with the exact element count. No argument content (for example CR or LF in a name echoed inside an error message) can split or corrupt the reply stream.",
 ["inputs","histories"],"every command, argument content and reply value",
 "Tests compare a few literal replies; they never check framing for arbitrary content.",
 ["resp/data.go","server/handler.go"],
 [("reply serialisation","resp/data.go ToRedisFormat"),("write loop","server/handler.go Handle")],
 ["bytes written to the connection"])
p("C04","Every command terminates with a reply for all arguments and states",
 "Every documented command, called with any number of arguments of any content (including extreme integers and unknown options) on a keyspace in any reachable state, returns a non-nil reply: it never panics, never loops forever and never leaves a key locked, so a following command on the same keys completes.",
 ["inputs","histories"],"every command, arity, argument content and pre-state",
 "Tests call about twenty commands with well-formed arguments on one or two pre-states.",
 ["memdb/keys.go","memdb/strings.go","memdb/list.go","memdb/list_struct.go","memdb/hash.go","memdb/hash_struct.go","memdb/set.go","memdb/set_struct.go"],
 [("arity and syntax checks at the top of each executor","memdb/*.go"),("deferred unlocks","memdb/*.go")],
 ["command replies"])
p("C05","String commands implement their documented semantics",
 "SET (with NX, XX, GET, EX, PX, EXAT, PXAT, KEEPTTL), GET, SETNX, SETEX, MSET, MGET, GETRANGE, SETRANGE, APPEND and STRLEN return what Redis documents and leave exactly the documented value stored, byte for byte, for all values, offsets and ranges. In particular SETRANGE overwrites only the addressed bytes and zero-pads, GETRANGE returns exactly the addressed bytes for all 64-bit indexes, MGET answers every key positionally, and a SET whose NX/XX condition fails changes nothing.",
 ["inputs","histories"],"every value, integer argument, option combination and pre-state of the key",
 "Tests cover one literal call per command.",
 ["memdb/strings.go"],
 [("string executors","memdb/strings.go")],["replies","GET/STRLEN/TTL afterwards"])
p("C06","Counters are exact 64-bit arithmetic or an error, never a wrap",
 "INCR, INCRBY, DECR, DECRBY and HINCRBY store and return exactly old value plus increment (a missing key or field counts as 0) whenever the old value is a 64-bit decimal integer and the result fits in 64 bits, and otherwise reply with an error and leave the value unchanged. INCRBYFLOAT and HINCRBYFLOAT store and return the decimal rendering of the double-precision sum, and reject operands or results that are not finite numbers.",
 ["inputs","histories"],"every stored value and every increment, including the extremes of int64",
 "Tests use 10+1, 11-1 and 10+5; overflow is never exercised.",
 ["memdb/strings.go","memdb/hash_struct.go","memdb/hash.go"],
 [("parse, add, format, store under the key lock","memdb/strings.go, memdb/hash_struct.go")],["replies","GET/HGET afterwards"])
p("C07","List commands implement an exact double-ended sequence",
 "LPUSH, RPUSH, LPUSHX, RPUSHX, LPOP, RPOP, LLEN, LINDEX, LSET, LINSERT, LRANGE, LTRIM, LREM, LMOVE and LPOS behave as the documented operations on an ordered sequence of byte strings, for all indexes, counts, ranks and element values: replies and the resulting sequence, read from either end, match. Indexes count from either end over the full 64-bit range, out-of-range ranges are clamped, and no element is lost, duplicated or reordered.",
 ["inputs","histories"],"every list content, index, count, option combination",
 "Tests cover LPOS and LREM on two literal lists.",
 ["memdb/list.go","memdb/list_struct.go"],
 [("doubly linked list with sentinels and length","memdb/list_struct.go"),("list executors","memdb/list.go")],["replies","LRANGE/LLEN/LINDEX with positive and negative indexes afterwards"])
p("C08","Hash commands implement an exact field-to-value map",
 "HSET, HMSET, HSETNX, HGET, HMGET, HDEL, HEXISTS, HLEN, HSTRLEN, HKEYS, HVALS, HGETALL and HRANDFIELD behave as the documented operations on a map from field to byte string: counts of added/removed fields are exact, HSETNX depends on the field and not on the key, HMGET answers every field positionally, and enumerations list every field exactly once with its own value. HRANDFIELD with count n>0 returns min(n, size) distinct existing fields, with n<0 exactly -n existing fields (a count too large to serve is an error).",
 ["inputs","histories"],"every field/value content, field multiplicity and pre-state, every map iteration order",
 "There are no hash tests at all.",
 ["memdb/hash.go","memdb/hash_struct.go"],
 [("hash executors over a Go map","memdb/hash.go, memdb/hash_struct.go")],["replies","HGETALL/HLEN/HGET afterwards"])
p("C09","Set commands implement exact set algebra",
 "SADD, SREM, SCARD, SISMEMBER, SMEMBERS, SMOVE, SPOP, SRANDMEMBER and SINTER, SUNION, SDIFF with their STORE forms behave as documented: missing and expired keys count as empty sets, results are the mathematical union/intersection/difference of the operands in order, and STORE replaces the destination (deleting it when the result is empty, discarding its old type and TTL) and replies with the result size. SPOP removes exactly the members it returns, SRANDMEMBER removes nothing and follows the same count rules as HRANDFIELD, and every byte string including the empty one is a valid member.",
 ["inputs","histories"],"every member content, number and aliasing of operand keys, pre-state, map iteration order",
 "Tests cover only the difference helper on two literal sets.",
 ["memdb/set.go","memdb/set_struct.go"],
 [("set executors and set algebra helpers","memdb/set.go, memdb/set_struct.go")],["replies","SMEMBERS/SCARD/EXISTS afterwards"])
p("C10","Keyspace commands track exactly which keys exist",
 "DEL, EXISTS, TYPE, KEYS and RENAME agree with the history: DEL removes and counts each existing key once, EXISTS counts arguments naming live keys, TYPE reports string/list/hash/set/none, KEYS lists each live matching key exactly once and nothing else, and RENAME moves the value of any type intact (replacing the target, including when both names are equal). After any sequence of writes the keys listed are exactly the live keys.",
 ["inputs","histories"],"every sequence of key commands and key names, every type",
 "Tests run each command once on two or three keys.",
 ["memdb/keys.go","memdb/concurrentMap.go","memdb/memdb.go"],
 [("key executors","memdb/keys.go"),("segmented map with key listing","memdb/concurrentMap.go")],["replies"])
p("C11","Expired keys are absent everywhere, and live keys never vanish early",
 "Once the clock is past a key's deadline (second granularity) every command treats the key as not existing and its old value and TTL never resurface, and before the deadline no command loses it. TTL lifecycle: EXPIRE (with NX, XX, GT, LT; no TTL counts as infinite), SETEX and SET with EX/PX/EXAT/PXAT set the deadline asked for, PERSIST and plain overwrites clear it, RENAME carries it over, in-place updates keep it, and TTL reports -2, -1 or the remaining seconds.",
 ["inputs","histories"],"every deadline, clock value, command and pre-state",
 "Tests set a TTL of 10 or 60 and read it back immediately; no test ever lets a key expire.",
 ["memdb/memdb.go","memdb/keys.go","memdb/strings.go"],
 [("lazy deletion before each access","memdb/memdb.go CheckExpire/DeleteExpiredKey"),("expires table updated with the value","memdb/keys.go, memdb/strings.go")],["replies","TTL/EXISTS afterwards"],
 [("expires","deadline per key in Unix seconds","memdb/memdb.go")])
p("C12","A command that replies with an error changes nothing",
 "Whenever a data command (one other than SELECT) replies with an error (wrong number of arguments, syntax or option error, not an integer or float, out of range, wrong type, no such key) the whole keyspace is exactly as before: no key is created, deleted, retyped, modified or has its TTL changed. A command that needs one type applied to a live key of another type always replies with an error.",
 ["inputs","histories"],"every command, invalid argument vector and pre-state",
 "No existing test triggers an error reply from a command.",
 ["memdb/strings.go","memdb/list.go","memdb/hash.go","memdb/set.go","memdb/keys.go"],
 [("validation before mutation","memdb/*.go")],["replies","full observation of all keys before and after"])
p("C13","Empty lists, hashes and sets never exist",
 "After any command sequence, a list, hash or set whose last element was removed, or whose creation failed or produced no element, does not exist: EXISTS is 0, TYPE is none, TTL is -2, KEYS does not list it, and a later command of any type can create the key afresh without inheriting a TTL.",
 ["inputs","histories"],"every command and pre-state, every way of removing the last element",
 "No test empties a container.",
 ["memdb/list.go","memdb/hash.go","memdb/set.go"],
 [("deferred delete-if-empty","memdb/list.go, memdb/hash.go, memdb/set.go")],["EXISTS/TYPE/TTL/KEYS afterwards"])
p("C14","Keys are independent of each other for every key name and segment count",
 "For any two different keys, including keys whose hashes collide or fall into the same segment, and for any configured number of segments, a command naming one key never changes what is observed of the other, and a key written is found again under exactly that name. The keys listed are exactly those written and not deleted.",
 ["inputs","configurations","histories"],"every pair of byte-string keys, every segment count, every short history of writes and deletes",
 "Tests use a few ASCII names with 100 segments.",
 ["memdb/concurrentMap.go","util/util.go","memdb/memdb.go","memdb/locks.go"],
 [("hash to segment, exact key in the segment's map","memdb/concurrentMap.go getKeyPos/Get/Set/Delete"),("FNV hash","util/util.go Hash")],["GET/EXISTS/KEYS/TTL"])
p("C15","Concurrent commands are atomic (linearizable)",
 "When two clients run commands at the same time, replies and final state are those of running the two commands one after the other in some order, for every interleaving. This includes read-modify-write commands (no lost update), conditional ones (only one of two SETNX on a free key succeeds), multi-key ones (MSET, MGET, DEL, EXISTS, RENAME, LMOVE, SMOVE, SINTER/SUNION/SDIFF and STORE forms are all-or-nothing to observers) and the lazy removal of expired keys (it never deletes a value written after the key expired); KEYS is exempt from the all-or-nothing rule for multi-key writers.",
 ["schedules","inputs"],"every interleaving of two commands at lock operations, with shared and distinct keys, live and expired",
 "All tests are single-threaded.",
 ["memdb/locks.go","memdb/memdb.go","memdb/strings.go","memdb/list.go","memdb/hash.go","memdb/set.go","memdb/keys.go"],
 [("per-key striped locks held across read-modify-write","memdb/locks.go"),("ordered multi-key locking","memdb/locks.go MLock/MRLock")],["replies","full observation afterwards"])
p("C16","Commands never deadlock and always release their locks",
 "No interleaving of commands, whatever keys they name (repeated keys, keys sharing a lock stripe, opposite orders), reaches a state where a command waits forever, and when all commands have returned every key can be locked again. This holds for any configured segment count.",
 ["schedules","inputs","configurations"],"every interleaving of two or three commands, all key aliasings and stripe collisions",
 "All tests are single-threaded.",
 ["memdb/locks.go","memdb/memdb.go","memdb/keys.go","memdb/set.go","memdb/list.go"],
 [("deduplicated, sorted lock acquisition","memdb/locks.go getSortedLocks"),("lazy deletion never nested inside a held key lock","memdb/memdb.go DeleteExpiredKey")],["commands returning"])
p("C17","Concurrent clients never cause a data race or crash",
 "While several clients run commands concurrently, every memory location shared between them is accessed under synchronisation (no data race on any interleaving) and no interleaving makes a command panic; in particular KEYS and other enumerations may run while keys are being created and deleted. The set of keys listed after all commands finish is exactly the set of live keys.",
 ["schedules","inputs"],"every interleaving of two commands at lock operations",
 "All tests are single-threaded; the race detector was never given concurrent work.",
 ["memdb/concurrentMap.go","memdb/memdb.go","memdb/locks.go","memdb/keys.go"],
 [("segment locks and key locks","memdb/concurrentMap.go, memdb/locks.go")],["process panic","race detector reports","KEYS afterwards"])
p("C18","Databases are isolated and SELECT is per connection",
 "SELECT n affects only the connection that issued it: every connection starts on database 0, and each command acts on the database last selected successfully on its own connection, whatever other connections select or do. The databases are disjoint keyspaces; an index outside 0..dbnum-1 or a non-integer is answered with an error and leaves the selection unchanged.",
 ["histories","schedules","inputs","configurations"],"every interleaving of requests of two connections, every index argument, every number of databases",
 "There are no server tests.",
 ["server/handler.go"],
 [("database selection state","server/handler.go Handle/Select"),("one keyspace per database","server/handler.go NewManager")],["replies on each connection"])
p("C19","KEYS pattern matching follows the documented glob rules",
 "For every pattern and every key, KEYS matches exactly when the glob rules say so: * any run (including empty), ? exactly one byte, [abc] any listed byte, [a-c] any byte in the range, [^...] any other byte, any other byte itself, and the whole key must be consumed. Matching terminates without panicking on every pattern, including unterminated or degenerate bracket expressions.",
 ["inputs"],"every pattern and every key",
 "Tests try eight patterns on a dozen words.",
 ["util/util.go","memdb/keys.go"],
 [("glob matcher","util/util.go PattenMatch")],["KEYS replies"])
p("C20","Every configuration file is either applied faithfully or rejected",
 "Loading a configuration file always terminates without panicking: it either applies each 'name value' line for host, port, logdir, loglevel, segnum and dbnum exactly (keys case-insensitive, blank lines and any whitespace tolerated, last line with or without newline, unmentioned settings unchanged) or returns an error. Malformed values (missing value, non-integer number, invalid host, a segment or database count that is not positive) are errors.",
 ["inputs","configurations"],"every file content",
 "The only config test reads one fixed file and is failing.",
 ["config/config.go"],
 [("line parser","config/config.go ParseConfFile")],["resulting configuration or error"])
p("C21","Command dispatch is complete, case-insensitive and side-effect free on errors",
 "Every command documented as supported is available and reaches its own implementation whatever the letter case of its name; a name that is not a command is answered with an error reply and has no effect. Dispatch depends only on the name, never on the arguments.",
 ["inputs"],"every command name in every letter case, every unknown name",
 "Tests call executors directly and never go through dispatch.",
 ["server/handler.go","memdb/command.go","main.go","memdb/keys.go","memdb/strings.go","memdb/list.go","memdb/hash.go","memdb/set.go"],
 [("command table","memdb/command.go"),("dispatch","server/handler.go ExecCommand")],["replies"])
p("C22","Replies and stored values are snapshots, never aliased",
 "A reply, once produced, never changes because of later commands (it is serialised after the key is unlocked), and a stored value never changes except by a command naming its key: values do not share mutable storage with requests, replies or other keys.",
 ["histories","inputs"],"every producing command followed by every modifying command, all values and offsets",
 "No test keeps a reply across a later command.",
 ["memdb/strings.go","memdb/list.go","memdb/hash.go","resp/parser.go"],
 [("values replaced rather than mutated in place","memdb/strings.go, memdb/list_struct.go, memdb/hash_struct.go")],["reply bytes re-serialised later","GET afterwards"])
p("C23","The server listens where configured and serves every client until stopped",
 "Started with a valid configuration, the server listens on exactly the configured host (IPv4 or IPv6) and port, and from then on serves every connection that reaches it, any number at the same time and whatever the others do (stay idle, send nonsense, stop reading their replies, leave at any point), also after accepting a connection has failed any number of times. All connections share the same databases. It keeps running until it receives an interrupt or termination signal, on which it stops listening and returns without error. If the address cannot be bound, starting returns an error.",
 ["inputs","histories","configurations"],"every host form and port, every sequence of connections, client behaviours and accept failures, either signal",
 "There are no tests of the server package at all.",
 ["server/server.go","server/handler.go"],
 [("accept loop and per-connection goroutine","server/server.go Start"),("signal handling and shutdown","server/server.go Start")],["address given to net.Listen","replies on each connection","value returned by Start"])
p("C24","Every command line is either applied faithfully or refused",
 "Starting with any command line either puts exactly the given settings in force (-host, -port, -logdir, -loglevel, -segnum, -dbnum in every flag notation, the last of repeated ones counting, the documented default for each one not given, and each line of the file named by -config replacing the corresponding setting) or is refused with an error or the usage text: unknown options, missing or malformed values, an invalid host, a segment or database count that is not positive, a configuration file that cannot be read or is malformed. A server can be made from every accepted command line.",
 ["inputs","configurations"],"every option, value, order and notation, with and without a configuration file",
 "No test calls Init.",
 ["config/config.go","server/handler.go"],
 [("flags and validation","config/config.go Init"),("file settings","config/config.go ParseConfFile")],["resulting configuration or refusal"])
p("C25","The log holds exactly the messages at or above the configured level",
 "With the levels debug < info < warning < panic < error and the level named in the settings in any letter case (info when none or an unknown one is named), redis.log in the log directory (created when missing) receives, for every message at or above the level, exactly one line carrying the whole message and its own level, in order, and nothing for messages below it. Messages logged at the same time by several clients are neither mixed nor lost, and restarting the server keeps what was logged before. A log directory that cannot be used is an error.",
 ["inputs","schedules","histories","configurations"],"every level and letter case, every message, every interleaving of two loggers, restarts",
 "The logger tests only call the functions and look at nothing.",
 ["logger/logger.go","config/config.go"],
 [("threshold test","logger/logger.go Debug..Error"),("prefix and write under one lock","logger/logger.go setPrefix, logMu")],["contents of redis.log"])
p("C26","A connection that has ended leaves nothing behind",
 "However a connection ends (the client closing or resetting it at any point of any stream, malformed input, replies that cannot be written), the server closes it and everything it started for that connection comes to an end: no goroutine stays behind, spinning or blocked, whether or not the client also closes its side, and any number of connections, one after the other or at the same time, leave the server as it was.",
 ["inputs","histories"],"every byte stream, cut, fault and number of connections",
 "There are no server tests, and a leaked goroutine changes no reply.",
 ["server/handler.go","resp/parser.go"],
 [("the parser ends with the stream's first error","resp/parser.go parse"),("the handler closes the connection on every exit","server/handler.go Handle")],["goroutines alive after the connection ended","connection closed"])
p("C27","The program runs as configured, or ends with a failure status",
 "Run with a command line, the program either becomes the configured server (listening on the configured address, with the configured number of databases, log directory and every documented command available to every client) and ends with status zero on an interrupt or termination signal, or, when the settings are refused, the configuration file or the log directory cannot be used, or the address cannot be bound, ends with a status other than zero without serving anyone.",
 ["inputs","configurations","histories"],"every command line and file, every failing stage of the start, every command",
 "Nothing tests the main package.",
 ["main.go","config/config.go","logger/logger.go","server/server.go"],
 [("start sequence and exit status","main.go main"),("command registration","main.go init")],["address listened on","replies","exit status"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
