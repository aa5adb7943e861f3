#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))

p("C01","The cache is exactly the latest reported state",
 "After any sequence of added, modified, deleted and reset notifications for any mix of resource types, clusters, namespaces and names, a list or get of a cached resource returns exactly the objects whose last notification was an add or modify not followed by a delete or reset of that resource type and cluster, each in its last reported version. Objects of different resource types, clusters, namespaces or names never replace, hide or remove one another. The total reported with a list is the number of such objects.",
 ["histories","inputs"],"every finite sequence of notifications over every combination of type, cluster, namespace and name",
 "The store tests replay a handful of hand-written sequences with one type, one cluster and at most a few objects; interference between keys and histories such as delete-then-re-add or reset-then-modify are not sampled.",
 ["store/memory/memory.go","store/interface.go"],
 [("nested maps type/cluster/namespace/name","store/memory/memory.go syncResourceStore, OnResourceAdded/Modified/Deleted, Clean"),("lookup and scan","store/memory/memory.go Get, Query")],
 ["store Query/Get results","GET list and single-object responses of the HTTP server"],
 [dict(name="resourceMap",meaning="the cached objects",where="store/memory/memory.go")])

p("C02","Concurrent cache reads and updates are atomic and race-free",
 "When any number of lists, gets, watch notifications and resets run at the same time, each behaves, for every single namespace of a cluster and resource type, as if it happened at one instant between its start and its end: no update is lost, no removed object reappears, and no read sees an object that never existed. No schedule makes them deadlock or touch shared memory without synchronisation.",
 ["schedules"],"every interleaving of concurrently running cache operations",
 "The store tests are single-threaded; even run in parallel they would sample a few of the schedules.",
 ["store/memory/memory.go","watcher/watcher.go"],
 [("per-level read-write locks","store/memory/memory.go syncResourceStore"),("initialise-if-absent of levels","store/memory/memory.go Init, initResourceNamespace"),("type registration under a lock","watcher/watcher.go watchResources")],
 ["results of store operations under a controlled scheduler","Go race detector"])

p("C03","Watching keeps the cache converged, and outages never empty it",
 "For every configured resource type (built-in or custom) and cluster, once its watch connection is up and quiet the cache holds exactly the state implied by the events of that connection; the first object event of a new connection discards what earlier connections reported. A connection that cannot be made, is dropped before it delivers anything, or delivers an error notice leaves the cached objects of that type and cluster in place and is retried, and nothing that happens to one type or cluster affects the cache of another. After stop, later events change nothing.",
 ["histories","fault_sequences"],"every sequence of connection outcomes (refused, error status, dropped, error event, silence, event batches) per resource type and cluster",
 "The watcher has no test: it needs hours of simulated time and a fault-injecting API server; the fake server tests only see the happy path.",
 ["watcher/watcher.go","store/memory/memory.go"],
 [("reconnect loop","watcher/watcher.go watchResources"),("clean on first event","watcher/watcher.go watchResources first"),("custom kinds decoding","watcher/watcher.go ObjType, scheme registration")],
 ["store contents after each step of a fault history"])

p("C04","Served objects are the objects the cluster reported",
 "Whatever object a cluster reports, of a built-in or a custom type and with any JSON content, is served from the cache, singly or in a list, with every field and value intact, including exact large numbers, empty values and unusual strings (of built-in objects and of object metadata: every field that the Kubernetes version ckube is built with defines); the only additions are the two bookkeeping annotations carrying the cluster name and the index values. Serving, searching, sorting or paging never changes what later requests see.",
 ["inputs","histories"],"every reported object and every sequence of reads",
 "The tests compare a few pods; custom objects with odd shapes or numbers beyond 2^53 are not sampled.",
 ["watcher/watcher.go","store/memory/memory.go","api/proxy.go"],
 [("custom object (un)marshalling","watcher/watcher.go ObjType.UnmarshalJSON/MarshalJSON"),("annotation","store/memory/memory.go buildResourceWithIndex")],
 ["bytes of single and list responses compared with what was reported"])

p("C05","Search returns exactly the matching objects",
 "A search made of ';'-separated conditions (';;' standing for a literal ';') selects exactly the objects whose index values satisfy every condition: a fuzzy word contained in some index value, 'key=value' contained in that key's value, '\"value\"' for an exact value, a leading '!' for negation, and advanced conditions with Kubernetes label-selector meaning. Blank conditions select everything, and an unknown key or malformed advanced condition is reported as an error rather than as a result.",
 ["inputs"],"every search text and every set of index values",
 "Table tests sample about twenty searches; combinations, separators at odd places and negation over several values are not reached.",
 ["page/page.go","kube/label.go","store/memory/memory.go","PAGINATE_SPEC.md"],
 [("split into conditions","page/page.go SearchParts"),("matching","page/page.go Match"),("advanced selector","kube/label.go ParseToLabelSelector")],
 ["set of objects returned by list with a search"])

p("C06","Restricting a query by cluster or namespace only adds that restriction",
 "Restricting a query to some clusters or namespaces replaces an earlier restriction of the same kind and keeps every other condition of the query, in whatever form it was written, so that the restricted query selects exactly the objects that satisfied the other conditions and lie in the requested clusters or namespaces. Reading the cluster restriction back yields exactly the requested clusters. Repeating or reordering restrictions of different kinds does not change the selection.",
 ["inputs","histories"],"every starting search and every sequence of restrictions",
 "Tests cover a few starting searches and single restrictions.",
 ["page/page.go"],
 [("merge into the advanced condition","page/page.go Clusters, Namespaces, SearchSelector, SetSearchSelector, SetSearchWithParts, GetClusters")],
 ["objects selected by the restricted query"])

p("C07","Sorting is total, stable across requests and honours the spec",
 "A list is ordered by the requested keys in turn, each as text or (with '!int') as number, ascending or descending, by cluster, namespace and name when no order is requested, and objects equal under all requested keys have a fixed order, so that the same content always yields the same sequence whatever the order in which it was reported or stored. A malformed sort, an unknown key or a non-number under '!int' is an error, never a silently unsorted list.",
 ["inputs","histories"],"every sort expression, every set of objects, and every internal iteration order",
 "Tests sort a few objects with distinct keys; ties and map iteration orders vary at random and cannot be settled by sampling.",
 ["store/memory/memory.go","PAGINATE_SPEC.md"],
 [("comparator and parser","store/memory/memory.go sortObjs")],
 ["order of items in lists"])

p("C08","Pages partition the selection and totals add up",
 "For any page size the pages 1, 2, 3... of an unchanged selection contain every selected object exactly once, in order, with or without a label selector, each reporting how many objects remain after it, from which the client-side helper recovers the true total. Page or page size zero means no paging, negative values are rejected, and a page beyond the end is rejected or empty, never wrong or a crash, for any 64-bit values. Every list response is a well-formed list: right kind and version, and items always an array.",
 ["inputs"],"every page, page size, selection size and combination with search, sort and label selector",
 "Tests use a few pages of a few objects.",
 ["api/proxy.go","store/memory/memory.go","page/page.go","PAGINATE_SPEC.md"],
 [("slicing","store/memory/memory.go Query; api/proxy.go Proxy"),("remaining count","api/proxy.go Proxy"),("total on the client","page/page.go MakeupResPaginate")],
 ["list responses and MakeupResPaginate"])

p("C09","A query survives its trip through the label selector",
 "Any query (page, page size, sort, search text in any characters and of any length) that the client library encodes into list options is accepted as a valid Kubernetes label selector and decoded by the server as exactly that query, while the caller's own label selector keeps its meaning. Encoding a second time replaces the previous query; an empty query leaves the options unchanged.",
 ["inputs"],"every query and every user label selector",
 "Tests encode six short ASCII queries; length-dependent splitting and character-dependent encoding are not reached.",
 ["page/page.go","kube/label.go","api/proxy.go"],
 [("encode","page/page.go QueryListOptions"),("split/merge","kube/label.go SplittingValue, MergeValues"),("decode","api/proxy.go parsePaginateAndLabelsAndClean")],
 ["list results obtained through encoded options vs the plain query"])

p("C10","Label selectors on cached lists mean what Kubernetes says",
 "A list with a label selector served from the cache contains exactly the objects whose labels satisfy the selector under Kubernetes semantics, for every operator, repeated keys and objects without labels, for built-in and custom types, and together with namespace, search, sort and paging.",
 ["inputs"],"every label selector and every assignment of labels",
 "Tests use two selectors on a few pods.",
 ["api/proxy.go","kube/label.go"],
 [("selector parsing","kube/label.go ParseToLabelSelector"),("filtering","api/proxy.go Proxy, findLabels")],
 ["list responses with labelSelector"])

p("C11","A request only sees the clusters it asked for",
 "A cached read returns objects of the default cluster only, or of exactly the clusters the query is restricted to, whatever names the clusters bear and whatever else the query contains; clusters with the same resource names never leak into one another. A single-object read returns the object of the addressed cluster or not found.",
 ["inputs","configurations"],"every set of cluster names, default cluster and query",
 "Tests use one or two clusters with simple names.",
 ["api/proxy.go","page/page.go","store/memory/memory.go"],
 [("default cluster restriction","api/proxy.go Proxy"),("cluster index","store/memory/memory.go buildResourceWithIndex"),("cluster selection","api/proxy.go parsePaginateAndLabelsAndClean")],
 ["cluster annotation of returned items"])

p("C12","Requests are served from the cache or forwarded unchanged",
 "Plain gets and lists of cached resource types are answered from the cache without contacting any API server; every other request (other methods, uncached types, watches, sub-resources, options the cache does not implement) goes exactly once to the addressed cluster, and only to it, with its method, path, query options, body and patch type intact. The API server's answer is relayed, a success with its exact body, an error with its code, reason and message, and an unknown cluster yields not found.",
 ["inputs","configurations"],"every request shape, cache configuration and API-server answer",
 "Tests cover a dozen requests against one fake upstream.",
 ["api/proxy.go","server/route.go","server/server.go"],
 [("decision","api/proxy.go Proxy"),("forwarding","api/proxy.go proxyPass, getRequest")],
 ["requests recorded at each cluster's API server and the client-visible answer"])

p("C13","Typed-client options address the intended cluster and nothing else changes",
 "A get, create, update, patch or delete whose options were prepared by the client library for a cluster reaches exactly that cluster, for any cluster name and resource, and the API server sees the request without the cluster marker and with all the caller's other options and its body intact. Preparing options that already use the carrying field is refused instead of overwriting it.",
 ["inputs"],"every verb, option set, cluster name and resource path",
 "Tests check one or two verbs with the default options.",
 ["page/page.go","api/proxy.go"],
 [("marking","page/page.go Query{Get,Create,Update,Patch,Delete}Options"),("unmarking","api/proxy.go parsePaginateAndLabelsAndClean")],
 ["request received by each cluster's API server when driving a real client through the server"])

p("C14","Relayed watch streams are byte-exact and prompt",
 "A watch opened through the server delivers exactly the bytes the API server sends, in order, with every complete line passed on as soon as it was received, however the stream is fragmented into reads and however it ends; an API-server error at opening time is relayed as that error. When the client goes away the relay ends.",
 ["inputs","fault_sequences"],"every stream content, every fragmentation into reads, and every end or error position",
 "No test watches through the proxy.",
 ["api/proxy.go","server/server.go"],
 [("relay loop","api/proxy.go proxyPassWatch")],
 ["bytes received by the client after each upstream chunk"])

p("C15","With a token configured nothing is disclosed or done without it",
 "If a token is configured, a request that does not carry it in its Authorization header gets 401 for every method and path except the health and metrics endpoints, discloses no cached data and causes no request to any API server; with the token, or with none configured, requests are processed normally.",
 ["inputs","configurations"],"every method, path, header and token",
 "Tests check one route with one token.",
 ["server/server.go","server/route.go"],
 [("token check","server/server.go registerRoutes")],
 ["status, body and upstream requests for each request"])

p("C16","Concurrent requests and a store swap do not interfere",
 "Requests handled at the same time give the answers they would give alone, including their time limits. A request that runs while the store and cluster clients are replaced is answered entirely from the old pair or entirely from the new one, a request that starts afterwards uses the new pair, and no schedule deadlocks or touches shared memory without synchronisation.",
 ["schedules"],"every interleaving of concurrent requests, store updates and store swaps",
 "Tests issue requests one at a time.",
 ["server/server.go","api/proxy.go","common/config.go"],
 [("swap","server/server.go ResetStore"),("per-request client","api/proxy.go getRequest"),("configuration","common/config.go")],
 ["responses under a controlled scheduler, Go race detector"])

p("C17","Configuration changes take effect and bad ones change nothing",
 "After a change of the configuration or kubeconfig file, the running server converges to serving exactly what a freshly started server would serve for the files' final content: cached types, indexes, clusters, default cluster and token. A change that cannot be loaded leaves the previous configuration fully in service, and a later good one is still picked up.",
 ["histories","configurations","fault_sequences"],"every sequence of good and bad file changes, by rewrite or by replacement",
 "No test runs the server process or its reload path.",
 ["cmd/cacheproxy/main.go","utils/fs_watcher.go","common/config.go"],
 [("reload loop","cmd/cacheproxy/main.go main, loadFromConfig"),("file watcher","utils/fs_watcher.go")],
 ["HTTP behaviour of the real binary after each change"])

p("C18","Index values are the configured function of the object alone",
 "Each configured index of a cached object has the value of its own expression (JSON path, template or constant) on that object, independent of the other indexes, of other objects and of the order of evaluation, also when it or another expression fails or finds nothing. The built-in cluster, namespace, name and deletion indexes always describe the object itself.",
 ["inputs","configurations","histories"],"every index configuration and every object, in every evaluation order",
 "Tests use a few expressions one at a time; interaction of several expressions depends on map iteration order.",
 ["store/memory/memory.go","utils/utils.go"],
 [("index evaluation","store/memory/memory.go buildResourceWithIndex")],
 ["index annotation of served objects, search and sort by the index"])

p("C19","Services of a deployment are exactly those selecting its pods",
 "The deployment-services endpoint returns exactly the cached services of the addressed cluster and namespace whose non-empty selector is a subset of the labels of that deployment's pods, where a pod belongs to the deployment through its replica set; pods and services of other deployments, namespaces or clusters with similar names never contribute.",
 ["inputs"],"every population of pods and services and every deployment, namespace and cluster name",
 "One fake-server test with a single pod and service.",
 ["api/extend/deploy2service.go","utils/subset.go","server/route.go"],
 [("pod lookup and owner","api/extend/deploy2service.go Deploy2Service, getDeploymentName"),("subset","utils/subset.go")],
 ["response of the endpoint"])

p("C20","The fake server behaves like a small multi-cluster API server",
 "After any sequence of creates, updates, deletes and clean-ups through any mix of clusters, gets and lists on the fake server return exactly the objects that were created or updated and not since deleted, errors are reported for impossible operations, and every successful write yields exactly one event describing it on each open watch of its resource, namespace and cluster, and to a listener waiting on the event channel, in order.",
 ["histories"],"every sequence of client operations and watch subscriptions",
 "Its tests follow one fixed scenario.",
 ["pkg/client/fake/fake_ckube.go"],
 [("write handlers","pkg/client/fake/fake_ckube.go proxy"),("watch","pkg/client/fake/fake_ckube.go watch")],
 ["client-go calls, watch streams and Events()"])

p("C21","The kubectl plugin and CLI pass the user's command through intact",
 "For any kubectl command line the plugin runs kubectl with the same arguments in the same order, except that the cluster option is removed and, for reads, the label selector becomes one that keeps the user's selector and restricts the query to those clusters, and, for creates, the cluster marker is added, hands kubectl's input, output and errors through, and exits with kubectl's status; the query printed by the CLI decodes to exactly the requested page, size, sort, search and clusters.",
 ["inputs"],"every command line within the supported sub-commands, with the options at any position",
 "The commands have no tests.",
 ["cmd/ckube-plugin/main.go","cmd/ckubecli/main.go","page/page.go"],
 [("argument rewriting","cmd/ckube-plugin/main.go main")],
 ["argument vector received by a stand-in kubectl; CLI output"])

p("C22","The resource gauge equals the number of cached objects",
 "At any quiescent moment the resource gauge exported for a cluster, resource type and namespace equals the number of objects cached there, after any history of additions, modifications, deletions and resets.",
 ["histories"],"every sequence of notifications",
 "No test reads the metrics.",
 ["store/memory/memory.go","utils/prommonitor/metrics.go"],
 [("gauge updates","store/memory/memory.go OnResource*, Clean")],
 ["metrics endpoint after each operation"])

p("C23","Table output shows every object under the right columns",
 "A list requested as a table has one row per object of the corresponding plain list, in the same order, every row having one cell per declared column holding that object's index value for that column, with cluster, namespace and name first.",
 ["inputs","configurations"],"every list, index configuration and paging",
 "No test requests a table of several objects.",
 ["api/proxy.go"],
 [("table rendering","api/proxy.go serverPrint")],
 ["table response compared with the plain list"])

p("C24","Bad requests are refused cleanly",
 "No request, however malformed its selector, query, sort, page, path or body, makes the server panic, answer with a success status and wrong content, or affect later requests: it is answered with a well-formed client-error status or forwarded to the addressed API server.",
 ["inputs"],"every request",
 "Tests send a few malformed selectors.",
 ["api/proxy.go","server/server.go","page/page.go","store/memory/memory.go"],
 [("error answers","api/proxy.go errorProxy"),("recovery","server/server.go registerRoutes")],
 ["status and body of each response, and of a fixed probe request afterwards"])

p("C25","The fake server's discovery describes exactly the configured types",
 "For any configuration the fake server's discovery documents list every configured group once with exactly its configured versions, one of them as the preferred one, and for each group and version exactly the resources configured there with their kinds, so that a client that discovers types finds exactly the configured ones and the objects it creates through a discovered type are found there and nowhere else.",
 ["configurations"],"every list of configured types, in any order",
 "No test discovers types.",
 ["pkg/client/fake/fake_ckube.go"],
 [("discovery documents","pkg/client/fake/fake_ckube.go api, apis, resources")],
 ["/api, /apis, /api/v1 and /apis/{group}/{version} and client-go's discovery and REST mapper"])

p("C26","Concurrent clients of the fake server do not interfere",
 "Whatever the interleaving of concurrent creates, updates, deletes, reads and clean-ups on the fake server, the answers and the resulting objects are those of some sequential order of the operations that respects real time (so of two concurrent creates of one object exactly one succeeds), every watch that is open all the while reports exactly the successful writes it covers in that same order, and no operation crashes, deadlocks or races with another.",
 ["schedules"],"every interleaving of concurrent requests and clean-ups",
 "Its tests send one request after another.",
 ["pkg/client/fake/fake_ckube.go","store/memory/memory.go","server/server.go"],
 [("write handlers","pkg/client/fake/fake_ckube.go proxy"),("clean-up","pkg/client/fake/fake_ckube.go Clean"),("event delivery","pkg/client/fake/fake_ckube.go proxy, watch")],
 ["answers of concurrent requests, the listed objects and the watch streams"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
