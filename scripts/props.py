import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
J="jsonmatcher/"
p("C01","A shared matcher's verdicts do not depend on schedule or history",
"A compiled matcher can be used by any number of goroutines at once without external locking: every match call returns exactly the verdict that its query defines for its document alone. Neither what other callers are doing at that moment, nor what was matched, rejected or asked for earlier through this or another matcher, changes any verdict, and no call panics.",
["schedules","histories","inputs"],"every interleaving of match, stats, query and message calls by many goroutines on one or several matchers, and every earlier history of documents",
"The suite calls Match once per fresh matcher from one goroutine; no test shares a matcher, repeats a call, or runs two goroutines.",
[J+"jsonmatcher.go",J+"nodes.go",J+"json_values.go",J+"build_matcher.go",J+"str_matchers.go"],
[("matcher nodes are immutable after build except for atomic counters",J+"nodes.go"),("values are extracted per call into fresh slices",J+"json_values.go")],
[("boolNode tree","compiled query shared by all callers",J+"nodes.go")],["Matcher.Match"],None)
p("C02","Matching neither modifies nor keeps the caller's document",
"A match call only reads the document bytes it is given, and only until it returns: the bytes (and the spare capacity behind them) are never written, so one document buffer may be matched by many goroutines at once. After the call returns the caller may overwrite or reuse the buffer without affecting any later verdict, statistic, message or query text.",
["schedules","histories","inputs"],"every document, every sharing of one buffer between concurrent calls, every moment at which a caller reuses its buffer after return",
"Tests never share a buffer, never compare it afterwards and never reuse it.",
[J+"json_values.go",J+"jsonmatcher.go",J+"str_matchers.go"],
[("jsonparser returns sub-slices that are only read and die with the call",J+"json_values.go")],None,["Matcher.Match","caller's buffer"])
p("C03","Damaged documents fail closed and leave no trace",
"A document that is not valid JSON - torn, truncated, bit-flipped, spliced or empty, at any byte - makes the match call return an error and a false verdict, and never panic; a document that is valid JSON never makes it return an error. A rejected document is not counted in the statistics and does not affect any concurrent or later call.",
["fault_sequences","histories","inputs","schedules"],"every position and kind of damage to a stored document, at every point of a concurrent history",
"All tests match one well-formed file; no test passes invalid JSON to Match.",
[J+"jsonmatcher.go",J+"json_values.go"],
[("validity check before evaluation",J+"jsonmatcher.go Match")],None,["Matcher.Match","Matcher.Stats"])
p("C04","Match statistics count every evaluation exactly once",
"When no call is in progress, the statistics of a matcher account exactly for all calls made on it by all goroutines: for the whole query, times checked is the number of accepted documents and times matched the number of true verdicts. The statistics mirror the query as a tree in which every operand reports how often it had to be evaluated (the right operand of AND only when the left matched, of OR only when it did not) and how often it matched; no update is lost or counted twice.",
["schedules","histories"],"every interleaving of concurrent match calls and every number of calls",
"No test looks at Stats at all.",
[J+"node_stats.go",J+"nodes.go",J+"jsonmatcher.go",J+"build_matcher.go"],
[("atomic per-node counters",J+"node_stats.go mark"),("stats tree",J+"node_stats.go toStatsNode")],
[("timesChecked/timesMatched","per-node counters",J+"node_stats.go")],["Matcher.Stats"])
p("C05","Statistics snapshots taken during matching are consistent",
"A statistics snapshot may be taken at any moment while other goroutines match: in it, every node satisfies 0 <= times matched <= times checked, the counts include every call that had returned before the snapshot was requested and no call that had not begun when it was delivered, and no counter is lower than in an earlier snapshot. A snapshot is never changed by later calls, and changing it does not disturb the matcher.",
["schedules","histories"],"every interleaving of snapshot readers with matching goroutines",
"No test calls Stats, let alone concurrently with Match.",
[J+"node_stats.go",J+"nodes.go"],
[("order of the atomic loads in a snapshot against the order of the increments",J+"node_stats.go")],None,["Matcher.Stats"])
p("C06","Parsing is independent of how the reader delivers the query",
"Parsing a query from a reader gives the same syntax tree with the same positions, or the same error, as parsing the same text from a string, however the reader cuts it up: single bytes, cuts inside multi-byte characters, empty reads, data delivered together with end-of-file, any size of query.",
["fault_sequences","inputs"],"every query text and every legal sequence of read results that delivers it",
"Tests only parse from strings; ParseQueryReader has no test.",
["parser/parser.go","internal/grammar/parser_gen.go"],
[("whole input is read before parsing","internal/grammar/parser_gen.go ParseReader")],None,["parser.ParseQueryReader","parser.ParseQuery"])
p("C07","A failing reader never yields a query",
"If the reader fails with anything other than a clean end-of-file before the query text is complete - at any byte, with or without data in the failing call - parsing returns an error that reports the read failure and no syntax tree, even if the text read so far is a valid query; no visitor is run on it.",
["fault_sequences","inputs"],"every byte position and kind of read failure",
"No test uses a failing reader.",
["parser/parser.go","internal/grammar/parser_gen.go"],
[("read error returned before parsing","internal/grammar/parser_gen.go ParseReader"),("error conversion","internal/grammar/aql.peg GetParseError")],None,["parser.ParseQueryReader"])
p("C08","Concurrent parsing and compilation are isolated",
"Any number of goroutines may parse queries and build matchers at the same time, from strings or slow readers, with their own visitors, and may read the same parsed tree concurrently. Each gets the tree, error, hints and warnings that its own query text gives when parsed alone.",
["schedules","histories","inputs"],"every interleaving of parses, compilations and tree readers",
"Tests parse from a single goroutine only.",
["parser/parser.go","parser/visitors.go","internal/grammar/parser_gen.go","parser/ast/ast.go",J+"jsonmatcher.go",J+"query_messages.go"],
[("per-parse parser state over a read-only grammar table","internal/grammar/parser_gen.go"),("per-matcher message tape",J+"jsonmatcher.go NewMatcher")],None,["parser.ParseQuery","jsonmatcher.NewMatcher","Matcher.Messages"])
p("C09","Visitors see each node once, in order, and can stop at any point",
"Every visitor sees the nodes of the tree depth-first, parents before children and left before right, each exactly once, after the built-in validation has accepted the query. Returning the skip signal at a node prunes exactly that node's subtree, the skip-all signal ends only that visitor's walk, and any other error at any visit ends parsing at once with that error (kept as is when it is a positioned parse error) and no tree.",
["fault_sequences","inputs","histories"],"every tree, every visit at which a visitor skips, stops or fails, and every combination of visitors",
"No test registers a visitor.",
["parser/visitors.go","parser/parser.go"],
[("walk","parser/visitors.go walkr"),("visitor loop","parser/parser.go ParseQueryReader")],None,["parser.Visitors","parser.ParseQuery"])
p("C10","An error on the message tape makes the query unusable",
"If a message visitor records an error at any node, parsing fails and returns the first error it recorded, with its text and position; without a recorded error, hints and warnings alone never make parsing fail. All messages recorded by a visitor remain available from it in the order they were recorded, with their type, text and position.",
["fault_sequences","inputs","histories"],"every sequence of messages recorded at every visit",
"No test uses a message visitor.",
["parser/visitors.go","parser/parser.go","parser/message.go"],
[("first error kept by the tape","parser/visitors.go addMsg"),("check after the walk","parser/parser.go ParseQueryReader")],
[("firstErr","first error recorded","parser/visitors.go MessageTape")],["parser.NewMessageVisitor","MessageVisitor.Messages"])
p("C11","Message printing survives failing writers and sharing",
"Printing a message to a writer delivers exactly the formatted text; if the writer fails or accepts only part of a write at any byte, what it accepted is a prefix of that text and printing does not panic, and if the writer works again afterwards the output is visibly marked as a print error instead of ending silently short. A formatter and its printers can be shared by concurrent goroutines, each output being what it would be alone.",
["fault_sequences","schedules","inputs"],"every byte at which the writer fails, every interleaving of printers",
"fmtmsg has no tests.",
["parser/fmtmsg/formatter.go","parser/fmtmsg/truncate.go"],
[("template execution and error marker","parser/fmtmsg/formatter.go Fprint")],None,["Printer.Fprint","Printer.Sprint"])
p("C12","Sampler state is exactly the sum of the accepted documents",
"After any sequence of sampling, querying and resetting, the sampler reports exactly the key paths, frequencies and document count of the documents it accepted since the last reset, down to its depth limit (a negative limit means none). A document it rejects contributes nothing and leaves everything collected before intact and the sampler usable; no input, however damaged, makes it panic.",
["histories","fault_sequences","inputs","configurations"],"every history of good and damaged documents, resets and queries, and every depth limit",
"Tests sample each faulty document once on a fresh sampler and never use the sampler afterwards; the one long history has only good documents and one depth.",
["sampler/sampler.go"],
[("per-document walk and error handling","sampler/sampler.go Sample")],
[("keys","occurrences per key path","sampler/sampler.go"),("totalDocs","accepted documents","sampler/sampler.go")],["Sampler.Sample","Sampler.Keys","Sampler.KeysAtThreshold","Sampler.Scanned","Sampler.Reset"])
p("C13","Separate samplers used concurrently do not interfere",
"Goroutines that each use their own sampler may do so at the same time without locking, even on the same document bytes: every sampler reports what it would have reported if used alone, the documents are not modified or kept, and lists handed out are the caller's own.",
["schedules","histories","inputs"],"every interleaving of goroutines using separate samplers",
"Tests use samplers from one goroutine only.",
["sampler/sampler.go"],
[("no package-level mutable state, fresh path buffer per document","sampler/sampler.go Sample")],None,["Sampler methods"])
p("C14","Graph output is complete or reported, and failures stay local",
"Writing a query graph to a file returns success only if the file then holds the complete rendering of that query; any failure to create or write the file, at any byte, is returned as an error and never ends the process. A failed or concurrent graph does not affect other graphs: graphs built and written later, or interleaved with it, come out as if alone.",
["fault_sequences","schedules","histories"],"every write fault position and kind, every history of failed and successful outputs, every interleaving of graph construction",
"aqlgraph has no tests.",
["aqlgraph/graph.go","aqlgraph/node_html.go"],
[("rendering to a file","aqlgraph/graph.go OutputSVG/OutputDOT")],None,["Graph.OutputSVG","Graph.OutputDOT","aqlgraph.QueryGraph"])
p("C15","The command-line matcher never reports a verdict it cannot stand for",
"The test command prints a verdict and exits with success only if it has read the query and the document completely and both are valid, and then the verdict is the right one. If any read fails or is cut short by an error, the query does not parse, or the document is damaged, it prints no verdict and exits with a failure status.",
["fault_sequences","inputs"],"every file fault at every byte of the query file and document, every query and document",
"cmd/aqltest has no tests.",
["cmd/aqltest/main.go"],
[("fatal exit on every error","cmd/aqltest/main.go")],None,["process exit status","standard output"])
p("C16","The playground server serves only its files, currently, and keeps going",
"For any sequence of concurrent requests the playground server returns only the current content of its page and of its listed assets, whole, and nothing else from the machine; anything else gets an error status. A file that is missing or fails to open or read affects only that response, after which requests for readable files succeed again, and serving any number of requests leaves no file open.",
["histories","fault_sequences","schedules","inputs"],"every sequence and interleaving of requests, file faults, file replacements and clock jumps",
"wasm/aqlparse/server has no tests.",
["wasm/aqlparse/server/main.go"],
[("name-to-path table","wasm/aqlparse/server/main.go DiskFS"),("index handler","wasm/aqlparse/server/main.go main")],None,["HTTP responses","open descriptors"])
p("C17","Timestamp verdicts do not depend on the host's clock or time zone",
"For timestamps that carry a numeric offset or no zone at all (read as UTC), equality and comparison verdicts depend only on query and document: they are the same whatever the host's current time, its time zone, or changes of either during the run.",
["configurations","histories","schedules"],"every host clock reading, clock jump and local time zone",
"Tests run in one time zone at one time.",
[J+"json_values.go",J+"expr_datetime.go",J+"expr_eq.go",J+"expr_between.go","parser/ast/ast.go"],
[("UTC parsing of query and document timestamps",J+"json_values.go getDatetimeVal")],None,["Matcher.Match"])
p("C18","The browser bridge answers every query independently of history",
"Every query the page hands to the browser bridge, in any order and however malformed, gets a result made of a tree and a message list: the tree is present exactly when the query is valid, an invalid query yields an error message, and messages concern that query only. No earlier query changes a later answer, and none ends the bridge.",
["histories","inputs"],"every history of queries, valid and malformed",
"wasm/aqlparse has no tests and is only compiled.",
["wasm/aqlparse/main.go","wasm/aqlparse/warnings.go"],
[("fresh visitor per call","wasm/aqlparse/main.go parseAQL")],None,["parseAQL result object"],None)
p("C19","Concurrent calls always make progress",
"Under every schedule, match, statistics, parsing, compilation and printing calls made concurrently by many goroutines all return: no combination of calls, rejected documents or failed parses leaves one waiting for another, and each finishes within a bounded number of its own steps.",
["schedules","fault_sequences"],"every interleaving, including callers suspended at any point for arbitrarily long",
"Tests are single-threaded.",
[J+"nodes.go",J+"node_stats.go",J+"jsonmatcher.go","parser/parser.go","parser/fmtmsg/formatter.go"],
[("no locks on the matching path, only atomic counters",J+"node_stats.go")],None,["every public call"])
# not applicable
NA={}
def na(id,title,stmt,text,why,files,mech,reason):
    p(id,title,stmt,["inputs"],text,why,files,mech); NA[id]=reason
na("C20","Operators mean what the documentation says",
"For every query and document, each operator (equality, sets, comparison, between, exists, null, regular expression, network, wildcard string) and each connective gives the documented verdict.",
"every query and document","The suite samples about 100 queries on one document.",
[J+"expr_eq.go",J+"expr_float.go",J+"expr_net.go",J+"str_matchers.go","README.md"],[("per-type matchers",J)],
"A single match is a pure function of (query, document): there is no schedule, clock, fault or interleaving for a simulator to decide. The reference model that C01-C05 use as oracle does compare documented verdicts, but only as the specification of the concurrent history.")
na("C21","The parser gives the documented tree for every query",
"AND binds tighter than OR, NOT binds to one clause, parentheses group, and every value literal is read as the documented type; everything else is rejected.",
"every query text","The suite parses about 50 fixed queries.",
["internal/grammar/aql.peg","internal/grammar/parser_gen.go","parser/ast/ast.go"],[("PEG grammar","internal/grammar/aql.peg")],
"Pure function of the query text with no schedule, clock or fault in it.")
na("C22","Invalid operations are rejected with an accurate position",
"Every query with a wrong number or type of arguments, duplicate or conflicting values, or an inverted range is rejected, and the reported position covers the offending text.",
"every invalid query","The suite has about 20 fixed invalid queries.",
["parser/validators.go"],[("validators","parser/validators.go")],
"Pure function of the query text with no schedule, clock or fault in it.")
na("C23","Highlighting covers the reported position at any width",
"Formatted messages show a window of at most the configured width that contains the start of the highlighted text, with the marker under it, for any Unicode query.",
"every query, position and width","fmtmsg has no tests.",
["parser/fmtmsg/truncate.go","parser/fmtmsg/formatter.go"],[("window computation","parser/fmtmsg/truncate.go")],
"Pure function of (query, position, width); the writer side, which does meet faults, is C11.")
na("C24","Parsing time grows moderately with query size",
"Parsing takes time polynomial in the query's length, so that no short query can occupy a processor for minutes.",
"every query text","No test measures parsing cost; nesting depth never exceeds one.",
["internal/grammar/parser_gen.go"],[("packrat memoisation is available but off","internal/grammar/parser_gen.go Memoize")],
"A performance property of a pure function of the query text: simulated steps say nothing about wall-clock cost, and no schedule or fault is involved.")
na("C25","A graph has the shape of its query",
"The graph of a query has one node per clause and operator and edges that follow the syntax tree, labelled with the clause's field, operator and values as written.",
"every query","aqlgraph has no tests.",
["aqlgraph/graph.go","aqlgraph/node_html.go"],[("tree walk","aqlgraph/graph.go visitNodes")],
"Pure function of the query text; output faults and interleavings of graph construction are C14.")
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
json.dump(NA,open('/tmp/x/na.json','w'))
for x in P: assert len(x['title'])<=80,x['id']
