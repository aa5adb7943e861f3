T["C05"]=("exhaustive enumeration of searches over a condition alphabet, each executed on the real matcher, store and server and compared with a reference matcher","every single, pair and triple of the condition alphabet and every short text over the syntax characters, on a fixed population of 78 objects; other terms and values are trusted to behave like these")
T["C06"]=("explicit-state exploration of restriction sequences over queries, every reached query evaluated on the real store and server against a set model","sequences of up to 3 restrictions from single starting conditions, up to 2 from pairs, 1 from triples (thorough: more), over a fixed alphabet and population")
T["C07"]=("exhaustive enumeration of sort expressions, value tuples and arrival orders on the real store and server against a reference order","all expressions of up to 2 terms, all tuples of up to 3 of 17 values in all arrival orders, population sizes up to 2000")
T["C08"]=("exhaustive enumeration of population size x page x page size x selection on the real store and server against list slices","all combinations up to 12 objects, pages 8 and sizes 14 (thorough 101 and 102), and all pairs of 26 extreme 64-bit values")
T["C09"]=("exhaustive enumeration of code points, lengths, field values and caller selectors through the real encoder and the real server's decoder with a capturing store","every code point, every length to 2000 plus the chunk-number boundaries; combinations of several unusual characters in one text only as blocks of neighbours")
T["C10"]=("exhaustive enumeration of label selectors x label sets on the real server against k8s.io/apimachinery","all selectors of up to 2 of 39 requirements, 3 of 20, on 46 label sets; trusts apimachinery's selector implementation as the meaning")
T["C11"]=("exhaustive enumeration of cluster names x default cluster x request forms on the real server against a set model","56 cluster names, 13 list forms, pairs of clusters; other names are trusted to behave like these")
T["C12"]=("exhaustive enumeration of methods x paths x options x addressed clusters x bodies x API-server answers on the real server with recording API servers","7 methods, 63 paths, 41 option sets, 14 ways to address a cluster, 16 bodies, every error status; other paths and options are trusted to behave like these")
T["C13"]=("exhaustive enumeration of cluster names x operations x caller options through the real option helpers, typed clients and server to recording API servers","over a fixed alphabet of cluster names, resources and option sets; combinations of options up to the stated size")
T["C14"]=("explicit-state exploration of stream contents x fragmentations x endings x opening answers on the real relay with a scripted API server","streams of a few lines in every fragmentation up to the stated length, longer ones in fixed patterns; promptness is observed after each fragment")
T["C02"]=("stateless exploration of all thread schedules up to a preemption bound on the real store under a controlled scheduler, histories checked for linearizability, with the race detector on every schedule of one family","pairs and triples of 14 operations in 2 or 3 threads, preemption-bounded; scheduling points at lock, atomic and thread operations of instrumented copies")
T["C15"]=("exhaustive enumeration of methods x paths x credentials x tokens, and of token changes between requests, on the real server with recording API servers","11 methods, 60 paths, 45 header sets, 8 tokens, sequences of up to 3 steps (thorough 4)")
T["C16"]=("stateless exploration of all thread schedules up to a preemption bound of concurrent requests and store swaps on the real server under a controlled scheduler, with the race detector","2 or 3 threads of one or two requests or swaps, preemption-bounded; scheduling points at lock, atomic and thread operations and at API-server contacts")
T["C18"]=("exhaustive enumeration of index configurations x objects on the real store against a reference evaluator, each configuration evaluated in worker processes under every evaluation order","a fixed alphabet of expressions (constants, JSON paths, templates, each template function) alone, in pairs and triples, on a fixed set of objects; JSON paths and templates themselves are trusted to the libraries")
T["C19"]=("explicit-state exploration of cached pod and service sets and notification histories on the real endpoint against a set model","18 pods, 23 selectors in 6 places: all sets of up to 2 pods (thorough 4), histories of up to 3 of 15 notifications (thorough 4); pods of one deployment share their labels")
T["C22"]=("explicit-state exploration of notification histories on the real store, the gauge compared with a set model after every step; and enumeration of configuration-change histories of the real server binary","words of up to 4 (thorough 6) of 12 notifications in one type, shorter ones over several types, clusters and namespaces; notifications one after another")
T["C23"]=("exhaustive enumeration of index configurations, object sequences and list forms on the real server, tables compared with plain lists and the reported values","sets of up to 3 of 15 index keys (thorough 5), sequences of up to 3 of 7 objects (thorough 5), 19 list forms")
T["C24"]=("exhaustive enumeration of a malformed-request grammar on the real server with recording API servers, each followed by probe requests, against a strict reference decoder","words of up to 3 or 4 tokens of small alphabets for selector, query, sort, search and options; fixed lists of paths, bodies and headers; through the real router, not the wire")
T["C03"]=("explicit-state exploration of connection fault and event histories on the real watchers and store in virtual time, compared with a model after every step","histories of up to 6 actions (thorough 8) of 8 events and 3 failures, shorter ones over 17 events, 16 failures and two streams; Go's random choice between a pending event and a stop is forced by repetition")
T["C04"]=("exhaustive enumeration of reported documents, successive versions and read sequences on the real watcher, store and server in virtual time, compared member by member with the reported JSON","64 values in 13 places singly and in pairs, 22 metadata members in pairs, every field of 18 built-in types in up to 4 variants, read sequences of up to 3 (thorough 4) of 14; API servers are trusted to write valid documents of known fields")
T["C17"]=("exhaustive enumeration of configuration-change histories (contents, ways of replacing a file, timing) on the real server binary with real file notifications, compared with a fresh server","12 good and 10 bad contents, 7 ways of replacing a file, ordered pairs of changes 1 ms to 1 s apart (quick: one pair of 37); the kernel's scheduling inside one change is not enumerated")
T["C20"]=("explicit-state exploration of client operation and watch histories on the real fake server over loopback, compared with a map and per-watch event lists","words of up to 4 (thorough 5) operations of 10 on objects, 11 with watches; every pair of 13 watches with up to 2 (3) writes; operations one after another")
T["C21"]=("exhaustive enumeration of command lines on the real plugin and CLI binaries with a recording stand-in for kubectl, against an independent reading of command lines and queries","16 command lines with the options at every position in every form, words of up to 4 (thorough 5) of 8 arguments, lists of values in pairs (thorough triples)")
T["C25"]=("exhaustive enumeration of configurations on the real fake server over loopback, its discovery documents and client-go's view of them compared with the configuration","every ordered list of up to 3 (thorough 4) of 11 types, and lists of nearly all of them in many orders; other groups, versions and kinds are trusted to behave like these")
T["C26"]=("stateless exploration of all thread schedules up to a preemption bound of concurrent requests and clean-ups on the real fake server under a controlled scheduler, histories and watch streams checked for linearizability, with the race detector on every schedule of one family","pairs and triples of 13 operations on objects of two namespaces and clusters, preemption-bounded; scheduling points at lock, atomic and thread operations of instrumented copies; watches take their events after the operations")
