package main

// Exploration budgets (seconds per tier) and the bounds of each property's
// harnesses. "+1" marks what the thorough tier adds.
var props = map[string]PropCfg{
	"C01": {Quick: 450, Thorough: 1500, Bounds: "one connection: 0..5 (+1) arbitrary bytes, or 0..4 (+1) arbitrary bytes after each of 14 well-formed beginnings, in one piece, in two pieces at any split, or byte by byte; every length header with 1..4 arbitrary digits, the int64 and 512 MiB edges and longer numbers, both signs; a 60-byte mixed stream cut anywhere with one byte replaced by any byte; failing writes and read errors at any point. Stream ended by EOF or reset. Declared bulk lengths above 64 KiB that are legal are not materialised.; a SET request with one arbitrary wrong bulk ending or a length of 1..3 bytes that are not a number"},
	"C02": {Quick: 450, Thorough: 1500, Bounds: "SET of a key and a value of 0..4 (+1) arbitrary bytes, two pieces at any split or byte by byte; pipelines of three requests in two (three) pieces; 1..6 arguments; values of up to 8 KiB crossing the read buffer (few symbolic bytes); arguments of 60..9000 bytes, three in one request; up to 200 arguments; up to 100 requests in one piece; long histories of up to 1100 (2600) operations or elements with a few symbolic bytes"},
	"C03": {Steps: 3_000_000, Quick: 450, Thorough: 1500, Bounds: "every reply type with arbitrary content of 0..3 bytes and any int64; arrays up to 12 elements and nested; unknown names of 0..3 (+1) arbitrary bytes; any two commands of the table of 110 rows pipelined; any command with up to 3 (+1) arguments taken from keys, one arbitrary byte, integer edges, option words; bulk and array replies of up to some thousand bytes or elements, and long pipelines, with a few symbolic bytes"},
	"C04": {Quick: 450, Thorough: 1500, Bounds: "every registered command with 0..3 (+1) arguments, each a key, one arbitrary byte, any int64, a bad float or an option word, on keys missing or of each of four types; option lists of up to 3; loops that do not end within 200k steps or allocations above 64 GiB are violations"},
	"C05": {Quick: 450, Thorough: 1500, Bounds: "values of up to 3 (+1) arbitrary bytes, any int64 index, offset (written part up to 5 (+1) bytes), any int64 deadline, up to 2 (+1) SET options in any order; key missing, string, list, with or without TTL; sequences of 2 (+1) edits; values of 9, 33 (70) bytes and of lengths around the powers of two up to 65 with any index and offset; MSET/MGET of up to 9 keys with repetitions; long histories of up to 1100 (2600) operations or elements with a few symbolic bytes; every sequence of up to 3 (4) SET options on five kinds of key"},
	"C06": {Quick: 450, Thorough: 1500, Bounds: "stored value: any int64 or any 0..2 (+1) bytes; increment: any int64 or any bytes; floats: a table of 20+ edge operands (IEEE arithmetic itself is evaluated concretely); long histories of up to 1100 (2600) operations or elements with a few symbolic bytes"},
	"C07": {Quick: 450, Thorough: 1500, Bounds: "lists of 0..3 (+1) one-byte elements, all equalities among them; every index, count, rank, maxlen any int64; second list up to 2; sequences of 2 (+1) structural commands; lists of 5, 8, 19 (40) concrete elements with any int64 index, count, rank and limit; pushes of up to 20 elements; long histories of up to 1100 (2600) operations or elements with a few symbolic bytes"},
	"C08": {Quick: 450, Thorough: 1500, Bounds: "hashes of up to 2 (+1) fields with arbitrary one-byte (0..2 in one harness) names and values, HRANDFIELD counts: any int64 except the range -2^40..-4 (-5); every outcome of the random generator and every map order; sequences of 3 (+1); hashes of 4, 9, 20 (40) fields, one of them symbolic; long histories of up to 1100 (2600) operations or elements with a few symbolic bytes"},
	"C09": {Quick: 450, Thorough: 1500, Bounds: "sets of up to 2 (+1) arbitrary one-byte members (0..2 bytes in one harness), two and three operands with aliasing, counts as for C08, every random outcome and map order; sequences of 3 (+1); up to five operand sets of 6, 12 (24) members; long histories of up to 1100 (2600) operations or elements with a few symbolic bytes; three sets as up to 4 (5) operands in any order with repetition and any destination"},
	"C10": {Quick: 450, Thorough: 1500, Bounds: "keys k, o and names of 0..2 arbitrary bytes; each of the key commands on every combination of types; histories of 3 (+1) writes; ten keys of all types in 1, 2, 5 or 16 segments; long histories of up to 1100 (2600) operations or elements with a few symbolic bytes"},
	"C11": {Quick: 450, Thorough: 1500, Bounds: "every row of the table of 110 commands on a key with a deadline, clock anywhere before, at or after it (int64); EXPIRE with every option and any int64; SET/SETEX deadlines any int64; histories of 3 (+1) commands with the clock moving by any amount in between; every pair of time-related commands, and a clock that ticks during a command; long histories of up to 1100 (2600) operations or elements with a few symbolic bytes; every sequence of up to 3 (4) SET options; multi-key commands on 3..17 keys with deadlines, one of them past"},
	"C12": {Quick: 450, Thorough: 1500, Bounds: "every registered command with 0..3 (+1) arguments (as C04) on keys of each type with TTL; twenty long argument lists with an arbitrary 0..2 byte bad argument; every table row on every wrong type; multi-key and variadic commands with 3..17 (33) arguments and an error at the first, middle or last (any) of them"},
	"C13": {Quick: 450, Thorough: 1500, Bounds: "containers of 1..2 symbolic elements; any int64 count/index; every pair of table rows in sequence; drains of 3 (+1) removals; containers of 3, 4, 5, 9, 17 elements emptied by one command or one by one; long histories of up to 1100 (2600) operations or elements with a few symbolic bytes"},
	"C14": {Steps: 3_000_000, Quick: 450, Thorough: 1500, Bounds: "two different keys of 0..1 (+1) arbitrary bytes or pairs with equal 32-bit FNV-1a hashes; segment counts 1, 2, 3, 7, 16; every table row; some dozens of keys in up to 64 segments; names of 8..520 bytes that differ in one byte; long histories of up to 1100 (2600) operations or elements with a few symbolic bytes"},
	"C15": {Quick: 450, Thorough: 1700, Bounds: "every interleaving at synchronisation operations of two concurrent commands (three in one harness; one client issuing two commands in two), one stripe count of 2, keys missing, live or with a deadline and the clock anywhere around it; argument bytes and integers symbolic where the command reads them; commands of five keys against each other and against single-key commands (1, 16 (2) segments); deadlines already past when set; commands of three keys against commands that write two of them"},
	"C16": {Quick: 450, Thorough: 1700, Bounds: "every interleaving of two commands from 37 single- and multi-key forms, 1..2 (3) stripes; three commands around a ring of three keys, 3 or 1 (also 2, 5) stripes; any two one-byte key names in opposite orders; commands of 3..5 (6) keys against commands of two of them in any order"},
	"C17": {Quick: 450, Thorough: 1700, Bounds: "every interleaving of any two of the 110 table rows with one stripe, happens-before race detection on every access to shared memory; KEYS against writers; mutation of values against readers"},
	"C18": {Steps: 3_000_000, Quick: 450, Thorough: 1500, Bounds: "two connections and a third opened later, 3 (+1) requests in any interleaving, 2..3 databases; any int64 or any 0..3 bytes as index; concurrent handling of two connections' requests; up to 65 databases, each with its own key, and as many connections as databases; long histories of up to 1100 (2600) operations or elements with a few symbolic bytes"},
	"C19": {Quick: 450, Thorough: 1500, Bounds: "every pattern of up to 5 bytes against every key of up to 4 bytes (+1), all bytes arbitrary; patterns of up to some dozen bytes with several stars against keys of matching length, a few bytes arbitrary"},
	"C20": {Quick: 450, Thorough: 1500, Bounds: "files of 0..4 (+1) arbitrary ASCII bytes; one setting with any letter case, any whitespace, values of 1..2 (+1) arbitrary non-space bytes, numbers of up to 20 digits; files of up to 3 (+1) lines; lines longer than the read buffer; files of up to 600 lines"},
	"C21": {Quick: 450, Thorough: 1500, Bounds: "every documented command in any letter case on every kind of key; names of 0..4 (+1) arbitrary bytes; every name with one byte added, removed or replaced by any byte, or with letters from outside ASCII"},
	"C22": {Quick: 450, Thorough: 1500, Bounds: "every value-producing command followed by 1 (+1) modifying commands, values of up to 3 arbitrary bytes; two requests per connection in one or several reads; long histories of up to 1100 (2600) operations or elements with a few symbolic bytes"},
	"C23": {Steps: 3_000_000, Quick: 450, Thorough: 1500, Bounds: "server.Start on a listener in memory: six addresses, any port 0..65535; 3 (+1) events out of accept errors (single and repeated), silent, leaving, stalled, nonsensical (3 arbitrary bytes), not reading and ordinary clients; 20..1050 clients at once in four kinds; 3..1050 accept errors; SIGTERM or SIGINT. Goroutines run under one fair schedule. The kernel's part (sockets, signals) is a stand-in"},
	"C24": {Quick: 450, Thorough: 1500, Bounds: "one option in its four forms with a value of 1..2 (+1) arbitrary non-space bytes, any int64 or beyond, nine addresses; 2..3 options in any order; an option together with a file of one or two settings, in either order; names of 1..2 (+1) arbitrary letters, names extended or cut by one byte. The real flag package is executed"},
	"C26": {Quick: 450, Thorough: 1500, Bounds: "one connection: 0..3 (+1) arbitrary bytes, alone or after each of ten beginnings, in one or two pieces; a pipeline cut anywhere with one byte replaced by any; failing writes and resets; the client leaving or staying after the server ended the connection; 3 (+1) connections, together or in turn. What is left is counted in goroutines; long histories of up to 1100 (2600) operations or elements with a few symbolic bytes"},
	"C27": {Steps: 3_000_000, Quick: 450, Thorough: 1500, Bounds: "main.main run with the options of six settings on the command line, in a file or absent (any port, 1..3 databases, up to 3 segments); each documented command once; one session of two clients per type with symbolic bytes; refusals: bind failure, six bad options, six bad files, no file, unusable log directory, any non-positive int64 count"},
	"C25": {Quick: 450, Thorough: 1500, Bounds: "five levels plus none and an unknown one, in three letter cases, from the command line or the file; 3 (+1) messages at any level; messages of 0..3 (+1) arbitrary bytes other than newline, any integer of -1000..1000, 1000 bytes; 2 (+1) restarts; eight directories; two goroutines with one or two messages, at most 3 (+1) preemptions. The real log package is executed; files are in memory; long histories of up to 1100 (2600) operations or elements with a few symbolic bytes"},
}

func init() {
	for id, p := range props {
		p.Level = "model_checking"
		props[id] = p
	}
}
