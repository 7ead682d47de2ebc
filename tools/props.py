#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run in /verif)."""
import json, os, sys
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))

SIM = "deterministic simulation with fault injection: seeded random search over schedules and fault sequences"

def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), oracle="", claimed=True):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                state=state, observe=observe, oracle=oracle, claimed=claimed)

PROPS = [
P("C01", "The cache converges to every cluster's real state",
  "Whatever happened before - API servers crashing and restarting, connections cut, partitions, watch streams that break, stall or carry errors, objects deleted while no stream was open - once the faults stop, every list of a cached type soon shows exactly the objects each configured cluster holds, at their latest version. While a cluster's stream is healthy, changes delivered on it are visible to the next reader within seconds, deletions included.",
  ["schedules", "histories", "fault_sequences"], "all object histories, goroutine schedules and sequences of stream/API server/network faults, for any number of clusters and types",
  "Tests feed single events to the store or watcher; none runs the watch loop against an API server that fails, restarts or changes while disconnected.",
  ["watcher/watcher.go", "store/memory/memory.go"],
  [("list-and-watch loop with clean on reconnect", "watcher/watcher.go watchResources"), ("event application", "store/memory OnResource*/Clean")],
  [("cached objects", "per type, cluster, namespace and name: the last event applied")], ["GET of a cached collection", "events the API servers sent and when they arrived"],
  "stream-level reference model: every list must show, per object, a version allowed by the events delivered on the stream the cache lives on; final lists must equal the clusters' state"),
P("C02", "Served objects are genuine: right content, right cluster, no duplicates",
  "Every object ckube returns from its cache is, field by field, a state that the cluster named in its cluster annotation really had, including kind, apiVersion and large numbers, and carries the identity that was asked for. No answer fabricates an object, mixes two states, attributes an object to another cluster or namespace, or lists one twice; lists carry the right kind and apiVersion.",
  ["schedules", "inputs", "fault_sequences"], "all object contents, clusters with equal names, interleavings of updates and reads, and truncated or garbled streams",
  "Tests compare a handful of hand-written objects in a quiescent store.",
  ["watcher/watcher.go", "store/memory/memory.go", "api/proxy.go", "utils/utils.go"],
  [("custom resource (de)serialisation", "watcher.ObjType"), ("cluster annotation and index", "store/memory buildResourceWithIndex"), ("list assembly", "api.Proxy")],
  [("cached object", "decoded object plus ckube's two annotations")], ["bodies of list and get answers"],
  "each returned object is matched with the committed version of that cluster/resourceVersion and compared field by field after a typed round trip"),
P("C03", "A client never sees an object go back in time",
  "For every object and client, resource versions observed in successive answers from the cache never decrease, through reconnects, re-lists, slow streams and concurrent reads.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of watch events, reconnections and reads by sequential clients",
  "No test reads while events are applied or streams are re-established.",
  ["watcher/watcher.go", "store/memory/memory.go"],
  [("one event loop per cluster and type", "watcher/watcher.go watchResources"), ("per-object replacement", "store/memory Set")],
  [], ["resourceVersion of every object in every answer, per client"],
  "per-client monotonicity over the recorded history"),
P("C04", "Outages do not empty the cache and do not spread to other clusters",
  "While a cluster's API server is down, refusing, hanging or partitioned, lists and gets of cached types keep being answered promptly with that cluster's last known objects. The other clusters' objects stay complete and current meanwhile, as if the failing cluster were healthy.",
  ["schedules", "fault_sequences", "crash_points"], "all outage kinds, instants and lengths, for each subset of clusters",
  "No test takes an API server away.",
  ["watcher/watcher.go", "store/memory/memory.go", "api/proxy.go"],
  [("cleaning only once a new stream delivers", "watcher/watcher.go watchResources"), ("per cluster watch loops", "watcher.Start")],
  [], ["lists and gets during outages"],
  "the stream-level model with outage views; answers must be 200 within bounded simulated time"),
P("C05", "The store answers concurrent readers as if every change were atomic",
  "Whatever writers and readers do at the same time, every object in the store behaves as one atomic register: a get or query sees a state the object had at some moment during it, never an absence between two versions, never a mix of two versions, never a later state followed by an earlier one. A query returns each object at most once, only objects that match as returned, in order, with the total of what matches. Objects already handed out never change, and no call blocks for ever or crashes.",
  ["schedules", "histories", "inputs"], "all interleavings of one writer per cluster and type (add, modify, delete, clean, refill) with any number of readers, and all queries",
  "Tests call the store from one goroutine.",
  ["store/memory/memory.go", "page/page.go"],
  [("locking of nested maps", "store/memory syncResourceStore"), ("query and sort of a copy", "store/memory Query, sortObjs"), ("index built before the object is stored", "store/memory buildResourceWithIndex")],
  [("the nested resource maps", "type, cluster, namespace, name")], ["results of store.Store Get and Query, and the objects in them at the end of the run"],
  "per-object linearizability against the single writer's history, plus matching, order and totals by the reference query"),
P("C06", "Pages partition the result: nothing lost, repeated or miscounted",
  "Reading a result that does not change page by page returns every matching object exactly once, in the requested order, each page full except the last, with a correct remaining-item count; a page past the end is refused and page or size zero means unpaged. This holds for every sort, search, selector, cluster and namespace restriction and page size.",
  ["inputs", "schedules", "configurations"], "all queries, page sizes, object populations (equal sort keys included) and map iteration orders",
  "Tests page through one fixed list with distinct sort keys.",
  ["store/memory/memory.go", "api/proxy.go", "page/page.go"],
  [("sort and slice", "store/memory Query, sortObjs"), ("manual slicing under label selectors", "api.Proxy")],
  [], ["sequences of page requests and remainingItemCount"],
  "page walks compared with an independent reference query engine"),
P("C07", "Search, sort, selectors and scopes mean what the spec says, under churn",
  "Every object returned satisfies the search, label selector, cluster and namespace restriction of the request, every object that satisfies them throughout the request is returned, and the result is in the requested order, also while objects change. Searches cover exactly the documented forms: fuzzy, key=value, quoted, negated, and label-selector style, joined by semicolons.",
  ["inputs", "schedules", "histories"], "all well-formed queries over all index configurations and object histories",
  "Tests evaluate a few dozen fixed queries on fixed objects.",
  ["page/page.go", "store/memory/memory.go", "api/proxy.go", "kube/label.go"],
  [("search matching", "page.Match"), ("index building", "store/memory buildResourceWithIndex"), ("selector transport", "kube.SplittingValue/MergeValues")],
  [], ["list answers"],
  "independent implementation of the query language over the versions the stream model allows"),
P("C08", "Pass-through requests arrive unchanged, once, and are answered as the server did",
  "A request that ckube does not answer from its cache reaches the API server with the same method, path, query, body and content type, minus ckube's own routing markers and search parameters. The API server's answer, success or error, is what the client gets, with its status code and its account of what went wrong; no success is invented, a write is never repeated unless the API server asked for the retry, and a repetition is identical to the first attempt.",
  ["inputs", "fault_sequences", "schedules"], "all methods, bodies, selectors and routing manners, concurrent clients, and API servers that fail, throttle, reset or truncate before or after acting",
  "No test passes a request through to an API server that fails or is slow.",
  ["api/proxy.go", "server/server.go"],
  [("request clean-up", "api.parsePaginateAndLabelsAndClean"), ("pass-through", "api.proxyPass, getRequest")],
  [], ["requests as the API servers received them", "answers as the clients got them"],
  "every request carries a number; what each simulated API server received and answered is compared with what the client sent and got"),
P("C09", "Every request is routed to the cluster it names and to no other",
  "A request that names a cluster, in any of the documented ways (cluster parameter, marker in resourceVersion, fieldManager or dryRun, search clusters), is served by or sent to that cluster only; one that names none goes to the default cluster; one that names only clusters ckube does not know reaches nobody and gets nothing: 404 or an empty list. Concurrent requests for different clusters never mix, whatever state the clusters are in.",
  ["inputs", "schedules", "fault_sequences"], "all routing manners, methods, cluster sets and concurrent requests",
  "Tests route single requests in a fixture with fake clients.",
  ["api/proxy.go", "page/page.go", "api/extend/deploy2service.go"],
  [("routing", "api.parsePaginateAndLabelsAndClean"), ("client choice", "api.proxyPass")],
  [], ["which API server received what"],
  "attribution of every upstream request and every returned object to the clusters the request may mean"),
P("C10", "A proxied watch relays the API server's stream: complete, in order, in time",
  "A client that opens a watch through ckube is told so as soon as the API server accepts it, then receives exactly the bytes the API server sends, in order and promptly, until either side ends the stream. ckube never cuts it earlier (up to its 30 minute limit), passes the end on, and releases the API server's stream soon after the client leaves. Other requests, watches and slow readers have no influence.",
  ["schedules", "fault_sequences", "histories"], "all event sequences, segmentations, client stalls and disconnections, stream faults and concurrent requests",
  "No test opens a proxied watch.",
  ["api/proxy.go", "server/server.go"],
  [("relay loop", "api.proxyPassWatch")],
  [], ["bytes and times on both sides of ckube"],
  "byte-prefix, latency, end and release checks between the recorded upstream stream and what the client read"),
P("C11", "A changed configuration takes effect: every change, in every manner",
  "Whenever the configuration file or the kubeconfig changes - overwritten, written in parts, replaced, deleted and recreated, swapped by symbolic link as Kubernetes volumes do - ckube serves under the new contents within seconds: exactly the listed types are cached with the listed indices, exactly the listed clusters are known, and asked at the listed addresses, the new default cluster and token apply. This holds for every sequence of changes, also rapid or failed ones, until the last.",
  ["histories", "schedules", "configurations", "fault_sequences"], "all sequences and manners of file changes, with unreadable and malformed versions, inotify and disk errors between them, and any concurrent load",
  "The one test of the watcher changes a file once and sleeps.",
  ["utils/fs_watcher.go", "cmd/cacheproxy/main.go", "watcher/watcher.go", "server/server.go"],
  [("file watch loop", "utils/fs_watcher.go, cmd/cacheproxy main"), ("rebuild of store, watcher and server", "cmd/cacheproxy loadFromConfig, server.ResetStore")],
  [("configuration files", "their contents at each instant")], ["answers after the last and between earlier changes", "requests reaching the API servers"],
  "the history of file contents gives the set of configurations that may be in force at each instant; an answer must be explained by one of them, and by the last one at the end"),
P("C12", "Changing the configuration disturbs nobody and mixes nothing",
  "While the configuration changes, ckube keeps serving: every answer is what one single configuration, old or new, would give, never a mixture of two, and requests in flight end normally. An unreadable, malformed or unusable configuration leaves the previous one working in full.",
  ["histories", "schedules", "configurations", "fault_sequences"], "all instants of change relative to requests and watch events, all damaged file contents, and API server outages during the change",
  "No test changes the configuration while requests run, or offers an unusable one.",
  ["cmd/cacheproxy/main.go", "server/server.go", "watcher/watcher.go", "api/proxy.go"],
  [("rebuild", "cmd/cacheproxy loadFromConfig, main"), ("switch", "server.ResetStore")],
  [], ["all answers during changes"],
  "as C11, with readers placed at the instants of change and damaged generations; panics, 5xx without upstream trouble and answers no single configuration explains are violations"),
P("C13", "The token guards everything but /healthy and /metrics, at any time",
  "With a token configured, no request that lacks it in its Authorization header gets anything but 401 on any path other than /healthy and /metrics - whatever its method, path spelling, query, other headers or body - and none of it reaches an API server; a request presenting the token is never refused for it, and the two open paths never ask for it. A changed token takes over like any other setting. What clients send as authorization is never forwarded: API servers see the kubeconfig's credentials only.",
  ["inputs", "configurations", "schedules"], "all requests, presented credentials and sequences of configured tokens",
  "Tests never configure a token.",
  ["server/server.go", "server/route.go", "api/proxy.go"],
  [("token check", "server.registerRoutes"), ("client per cluster", "cmd/cacheproxy loadFromConfig")],
  [("token", "of the configuration in force")], ["status codes", "requests and credentials reaching the API servers"],
  "every request is judged against the configurations that may be in force while it is answered; the API servers' logs show what was passed on"),
P("C14", "No input, client, outage or reload makes ckube crash, hang or misanswer",
  "ckube answers every request, however malformed, whatever the client does with the connection, and in whatever state the API servers, the configuration and the cache are: promptly, with a well-formed answer, and with a server error only where an API server is in trouble. The process stays up, /healthy answers 1 at once and /metrics works all the time, and one client's behaviour does not affect another's answers.",
  ["inputs", "schedules", "fault_sequences", "configurations"], "all byte sequences sent by clients, abandoned, slow and reset connections, during outages and reloads",
  "Tests send a few well-formed requests to handlers without a server.",
  ["server/server.go", "server/route.go", "api/proxy.go", "api/extend/deploy2service.go", "page/page.go", "kube/label.go"],
  [("request handling and recovery", "server.registerRoutes"), ("query parsing", "api.parsePaginateAndLabelsAndClean"), ("forwarding", "api.proxyPass")],
  [], ["answers on the wire", "exit of the process"],
  "junk and well-formed requests over a raw simulated connection; status, promptness and form of each answer, and all other clients' answers as in C01-C12"),
P("C15", "The metrics tell the truth about the cache and the configuration",
  "At any time ckube_resources_total shows for every cluster, type and namespace the number of objects the cache serves for it, nothing for what is not cached, and the reload counters count the configuration changes that took effect and that failed. This holds through outages, reconnections and changed configurations.",
  ["schedules", "histories", "fault_sequences", "configurations"], "all histories of objects, streams and configuration changes",
  "No test reads the metrics.",
  ["store/memory/memory.go", "utils/prommonitor/metrics.go", "watcher/watcher.go", "cmd/cacheproxy/main.go"],
  [("gauge upkeep", "store/memory OnResource*/Clean"), ("reload counter", "cmd/cacheproxy main")],
  [("resource gauge", "objects per cluster, type, namespace")], ["GET /metrics"],
  "each scrape is compared with the number of objects the stream-level model allows, and with the history of configuration changes"),
P("C16", "Deployment-to-services lists exactly the services that select its pods",
  "The services listed for a deployment are exactly those of its namespace and cluster whose selector matches at least one pod the deployment owns through a ReplicaSet, each at its cached version. Deployments with similar names, unusual pod names, selectors of services that select nothing, other clusters or namespaces, outages and concurrent changes do not disturb it; where pods or services are not cached the answer is 404.",
  ["inputs", "schedules", "histories", "configurations"], "all populations of pods and services and their changes, deployment names, clusters and configurations",
  "No test covers the lookup.",
  ["api/extend/deploy2service.go", "utils/utils.go", "server/route.go"],
  [("pod and service lookup", "api/extend Deploy2Service, getDeploymentName")],
  [], ["GET /custom/v1/[clusters/c/]namespaces/n/deployments/d/services"],
  "an independent lookup over the pod and service versions the stream model allows"),
P("C17", "ckube holds one stream per cluster and type, leaks and hammers nothing",
  "In the long run ckube holds exactly one watch stream per configured cluster and resource type and none for anything else, never two at a time outside a configuration change, and nothing besides: once clients have left and faults have stopped, no connection to an API server, client connection or goroutine remains from earlier requests, watches, outages or configurations. An API server that refuses or breaks streams is asked again at a bounded pace, by connection or by request.",
  ["histories", "schedules", "fault_sequences", "configurations"], "all histories of requests, abandoned clients, outages, stream faults and configuration changes, and all configurations, also with repeated types",
  "Tests stop long before a leak shows and have no API server that counts streams.",
  ["watcher/watcher.go", "cmd/cacheproxy/main.go", "api/proxy.go", "server/server.go"],
  [("watch loop and its retries", "watcher.watchResources"), ("stop of the old watcher", "cmd/cacheproxy main, watcher.Stop"), ("release of upstream streams", "api.proxyPassWatch")],
  [("open streams and connections", "per API server"), ("goroutines", "by the function they run")], ["API servers' view of streams, connections and requests", "goroutines of the process"],
  "streams open at the API servers against the configuration in force, also pairwise over time; connections and goroutines left after all clients went; rate of watch requests and dials"),
P("C18", "The embeddable test server is linearizable and tells every watcher everything",
  "Whatever clients do at the same time, the fake server for tests answers creates, updates, deletes, reads and lists of configured types as if each took effect at one moment: of racing creates one wins, an answered change is in every later read, nothing is lost or mixed, and what is not configured is refused. Every watch receives each change to its type, namespace and clusters since it was opened exactly once, with the whole object, in the order in which the changes took effect. Watchers which are slow or have left hold up nobody, and a watch ends when its client leaves.",
  ["schedules", "histories", "inputs", "fault_sequences"], "all interleavings of clients, watchers which stall, leave or are cut off, resets of the store, types, clusters and selectors",
  "The tests of the fake server use one client at a time and sleep in between.",
  ["pkg/client/fake/fake_ckube.go", "server/server.go", "store/memory/memory.go"],
  [("check and change in one step", "pkg/client/fake proxy"), ("event delivery", "pkg/client/fake watch"), ("streaming through the access log", "server statusWriter")],
  [("watchers", "who still has to be told"), ("store", "objects by type, cluster, namespace, name")], ["HTTP answers of the fake server", "watch streams", "Events()"],
  "per-object linearizability search over the recorded operations, exactly-once and order checks of every watch stream, release of left watchers' connections"),
P("C19", "Command-line helpers turn flags into equivalent requests",
  "For every command line, the kubectl plugin and ckubecli produce the kubectl arguments and label selector that express the named clusters, page, sort and search together with everything else the user gave, and refuse what they can not express.",
  ["inputs"], "all command lines",
  "No test covers the command-line tools.",
  ["cmd/ckube-plugin/main.go", "cmd/ckubecli/main.go", "page/page.go"],
  [("argument rewriting", "cmd/ckube-plugin main")], [], ["arguments kubectl is started with, output of ckubecli"], "", claimed=False),
]

def main():
    with open("properties.jsonl", "w") as f:
        for p in PROPS:
            o = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], state=[dict(name=n, meaning=m) for n, m in p["state"]],
                                  mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                                  observe_at=list(p["observe"]), hook_needed="none: seams are added by a build overlay"))
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(o, ensure_ascii=False) + "\n")
    m = dict(version=1, setup_cmd="./check.sh setup",
             hooks=dict(guard="none", enable="the checks compile /repo through a go build -overlay generated by tools/simctl; nothing is added to /repo", source_commits=[]),
             checks=[dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
                          evidence_file=f"evidence/{p['id']}.json", technique=SIM, level="exploration",
                          level_note="Decides by: " + p["oracle"] + ". Samples schedules and faults; a pass is no proof.") for p in PROPS if p["claimed"]],
             not_applicable=NA, notes="See DESIGN.md. Replay: ./check.sh replay evidence/replay/<file>.json -v")
    json.dump(m, open("MANIFEST.json", "w"), indent=1, ensure_ascii=False)
    open("MANIFEST.json", "a").write("\n")

NA = [dict(property="C19", reason="Pure functions of the command line: each tool rewrites its arguments once and exits; there is no concurrency, time, I/O of its own or second party a simulated schedule or fault could influence. The encoder they share with the SDK is exercised end to end by the simulated clients of C06-C09.")]
if __name__ == "__main__":
    main()
