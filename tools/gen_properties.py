#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit the table here, then run it."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech],
            observe_at=list(observe), hook_needed=None)))

G="pkg/graph/memory/"
WG=G+"wg.go"
gfiles=[WG,G+"wdg.go",G+"wug.go",G+"node.go",G+"edge.go"]
H=["histories","inputs"]

p("C01","Graph lookup, listing and errors agree on one node set",
  "After any sequence of node and link operations on an in-memory directed or undirected graph, looking up a UID succeeds exactly when that UID was added and not removed since, and fails with ErrNodeNotFound otherwise. The node listing contains exactly the nodes that lookups return, once each, and no two of them share an internal ID. An operation that returns an error leaves nodes and edges as they were.",
  H,"every history of add/upsert/remove/link/unlink over any UIDs (equal or not) and any internal IDs",
  "The tests add one or two nodes with distinct UIDs in one fixed order; agreement between the UID index and the underlying gonum graph over all histories and all UID/ID coincidences is never exercised.",
  gfiles,[("UID index kept beside the gonum graph","%s:AddNode/RemoveNode"%WG)],
  [("nodes","UID -> node index",WG),("WeightedGraphBuilder","gonum graph holding nodes by internal ID",WG)],["Node","Nodes","Edges","From"])
p("C02","Duplicate nodes are rejected; upserts replace the node everywhere",
  "Adding a node whose UID is already in the graph fails with ErrDuplicateNode unless upsert is requested, and so does adding a node whose internal ID belongs to a node with another UID, with or without upsert; a value that is not a memory graph node is rejected with ErrInvalidNode. After an upsert the new node is the one returned by lookups, listings, neighbour listings and edge endpoints, and the node's edges are all still there with their UID, weight and attributes.",
  H,"every pre-existing graph, every node added to it, with and without upsert",
  "Tests re-add the very same node object once; same UID under a different object or internal ID, and same internal ID under a different UID, are not tried.",
  gfiles,[("AddNode","%s:AddNode"%WG)],[("nodes","UID -> node index",WG)],["AddNode","Node","Nodes","From","Edge"])
p("C03","Removing a node removes exactly that node and its edges",
  "RemoveNode removes the node with the given UID together with every edge that touches it, in either direction, and nothing else; every other node and edge keeps its identity, weight and attributes. Removing an unknown UID is a no-op without error, and a UID added again after removal has no edges.",
  H,"every graph and every UID",
  "Tests remove an isolated node from a one-node graph.",
  gfiles,[("RemoveNode","%s:RemoveNode"%WG)],(),["RemoveNode","Edges","From","Edge"])
p("C04","Linking creates one edge with the requested data, or changes nothing",
  "Linking two distinct nodes that are not linked adds exactly one edge between them carrying the weight given (DefaultWeight when none is given) and the attributes given, and returns it; linking an already linked pair returns the existing edge with its UID, weight and attributes unchanged. If either UID is unknown the result is ErrNodeNotFound, and linking a node to itself returns an error rather than crashing; in both cases the graph is unchanged.",
  H,"every graph, every pair of UIDs, every weight and attribute set",
  "Tests link one pair once with one weight; they never vary weight, attributes, pre-existing edges or self links.",
  gfiles,[("Link","%s:Link"%WG),("NewEdge","%sedge.go:NewEdge"%G)],(),["Link","Edge","Edges"])
p("C05","Edge lookup, neighbours and edge listing agree, with right direction",
  "Edge(u,v) exists exactly when v is among From(u), and the edge listing contains each edge exactly once. In a directed graph a link from u to v makes no edge from v to u; in an undirected graph both orientations answer with the same edge UID, weight and attributes. An edge returned by Edge(u,v) or Link(u,v) always reports u as its from node and v as its to node; asking about a missing edge between existing nodes gives ErrEdgeNotExist, and about an unknown node ErrNodeNotFound.",
  H,"every graph reachable by linking and unlinking, every ordered pair of UIDs",
  "Tests look at one edge in one orientation.",
  gfiles,[("Edge/From/Edges","%s"%WG),("ReversedEdge","%sedge.go"%G)],(),["Edge","Edges","From"])
p("C06","Unlinking removes exactly one edge and is otherwise a no-op",
  "Unlink(u,v) removes the edge from u to v (in an undirected graph, the edge between u and v) and leaves every node and every other edge as it was, including v to u in a directed graph. If the edge or either node does not exist it returns no error and changes nothing, and the pair can be linked again afterwards with new weight and attributes.",
  H,"every graph and every ordered pair of UIDs",
  "Tests unlink the only edge of a two-node graph and then accept either outcome of the lookup.",
  gfiles,[("Unlink","%s:Unlink"%WG)],(),["Unlink","Edge","Edges"])
p("C07","A subgraph holds exactly the nodes within the requested depth",
  "SubGraph(root, depth) for any depth >= 0 returns a graph whose nodes are exactly those reachable from root by at most depth edges (following edge direction in a directed graph), whatever order neighbours are iterated in; an unknown root gives ErrNodeNotFound. Taking a subgraph never changes the source graph.",
  ["inputs","configurations","schedules"],"every graph, every root, every depth >= 0, every map iteration order",
  "Tests count nodes for three depths on one fixture graph; map iteration order is whatever the run gives.",
  [WG],[("SubGraph","%s:SubGraph"%WG)],(),["SubGraph","Nodes"])
p("C08","A subgraph keeps exactly the edges among its nodes, with their data",
  "In the graph returned by SubGraph two nodes are linked exactly when the source graph has that edge, and the subgraph's edge has the weight and attributes of that very source edge, whatever order edges are iterated in. Its edge attributes are independent copies: changing attributes on either side afterwards does not show on the other, and an error reading an edge's attributes is returned rather than ignored.",
  ["inputs","configurations"],"every graph, root and depth, every weight and attribute value, every map iteration order",
  "Tests never look at a subgraph's edges at all.",
  [WG,"pkg/attrs/memory/memory.go"],[("SubGraph","%s:SubGraph"%WG),("NewCopyFrom","pkg/attrs/memory/memory.go")],(),["SubGraph","Edge","Edges"])
p("C09","Concurrent graph use never races, deadlocks or crashes",
  "Any set of graph operations (lookups, listings, add, upsert, remove, link, unlink, subgraph, DOT export) called from several goroutines on the same in-memory graph completes: no call blocks for ever, none panics and none accesses memory without synchronisation.",
  ["schedules"],"every interleaving of concurrent graph operations on shared UIDs",
  "No graph test starts a goroutine, so no schedule at all is explored.",
  [WG],[("RWMutex mu","%s"%WG)],[("mu","guards the index and the gonum graph",WG)],["all methods"])
p("C10","Concurrent graph updates leave a coherent graph",
  "When nodes are added, removed, linked and unlinked concurrently, the state afterwards and every result returned match some sequential order of those calls: in particular an edge returned by Link with no unlink or removal is the edge in the graph, concurrent links of one pair return one edge, and no node or edge survives that no sequential order would leave.",
  ["schedules","histories"],"every interleaving of pairs and triples of graph updates over a shared set of nodes",
  "No graph test starts a goroutine.",
  [WG],[("lock scope in Link/RemoveNode/Unlink","%s"%WG)],(),["Nodes","Edges","Edge","Link"])
p("C11","Nodes and edges carry the identity and data they were built with",
  "A graph node keeps its entity's UID and type, the internal ID and the attributes given (fresh, empty and unshared when none), and its DOT ID is the DOTID option if non-empty, else the entity's own DOT ID if it has one, else the UID string. An edge keeps its end points, weight and attributes (fresh, empty and unshared when none); its UID is the DOTID option if given, else the UID option, else a fresh one, and its DOT ID equals that UID's string; reversing an edge swaps the end points and keeps the rest.",
  ["inputs"],"every combination of options and every string value",
  "Tests check one option combination each with one fixed string.",
  [G+"node.go",G+"edge.go","pkg/graph/options.go"],[("NewNode","%snode.go"%G),("NewEdge","%sedge.go"%G)],(),["NewNode","NewEdge","DOTID","ReversedEdge"])
p("C12","DOT export shows every node and edge and leaves the graph usable",
  "DOT() returns a document whose node statements are the DOT IDs of exactly the graph's nodes and whose edge statements are exactly its edges, each once, with their attributes. It does not change the graph, and every later operation on the graph, writes included, still completes.",
  H,"every graph, exported at any point of a history",
  "Tests only check that the string is not empty, on an empty graph, and call nothing afterwards.",
  [WG],[("DOT","%s:DOT"%WG)],[("mu","read lock taken during export",WG)],["DOT","AddNode"])

S="pkg/store/memory/store.go"
p("C13","The store returns what was added, with the documented errors",
  "Get returns the entity last added under that UID (same UID, type and attributes option) if it was added and not deleted since, and ErrEntityNotFound otherwise; Add of a UID already present without upsert returns ErrAlreadyExists and leaves the stored entity as it was; Delete makes the UID unknown, removes its links and is a no-op for an unknown UID.",
  H,"every history of adds, gets and deletes over any UIDs",
  "Tests run each call once on a fresh store with generated UIDs.",
  [S],[("add/get/delete",S)],[("g","graph that backs the store",S)],["Add","Get","Delete"])
p("C14","Store upsert replaces the stored entity and keeps its links",
  "Add with upsert never fails on account of an existing UID; afterwards Get and the store's graph return the newly added entity's type and attributes, and every link the old entity had is still there. For a UID not yet stored it behaves as a plain Add.",
  H,"every store content, every entity",
  "The upsert test adds an entity with a different, generated UID, so nothing is ever replaced.",
  [S,WG],[("add with Upsert",S)],(),["Add","Get","Graph"])
p("C15","Store links mirror the graph and report missing entities",
  "Link makes an edge with the given attributes between two stored entities visible through the store's graph, and linking again changes nothing; Link with an unknown UID on either side returns ErrEntityNotFound and changes nothing. Unlink removes exactly that edge and is a no-op without error when the link or an entity is missing.",
  H,"every store content, every pair of UIDs, directed and undirected backing graph",
  "Tests link one pair and never look at the graph.",
  [S,WG],[("link/unlink",S)],(),["Link","Unlink","Graph"])
p("C16","Bulk store calls equal the same single calls in order",
  "BulkAdd, BulkDelete, BulkLink and BulkUnlink have the effect and the error of making the corresponding single calls in list order and stopping at the first error. BulkGet returns one entity per requested UID, in the order requested (repeats included), or the first lookup's error and no entities. An error of the graph the store was given is returned by single and bulk calls alike.",
  H,"every list of UIDs or entities, repeats and unknown ones included, at every length up to the bound",
  "The BulkGet test checks only the length of the result; no test passes repeated or unknown UIDs.",
  [S],[("BulkAdd/BulkGet/BulkDelete/BulkLink/BulkUnlink",S)],(),["BulkGet","BulkAdd","BulkDelete","BulkLink","BulkUnlink"])
p("C17","Concurrent store use is race-free, never blocks for ever, and is atomic",
  "Store operations called from several goroutines all complete without panic, deadlock or unsynchronised memory access. Every result and the final content match some sequential order of the calls: of concurrent plain Adds of one UID exactly one succeeds.",
  ["schedules"],"every interleaving of concurrent store operations on shared UIDs",
  "No store test starts a goroutine.",
  [S,WG],[("RWMutex mu",S)],(),["all methods"])

L="pkg/cache/memory/links.go"
p("C18","Both link indexes return exactly the cached links",
  "After any sequence of operations GetFrom(u) returns exactly the cached links whose origin is u and GetTo(u) exactly those whose end is u, each once, so a link is in one index exactly when it is in the other. UIDs are compared by value: any UID with the same string finds the same links.",
  H,"every history of puts, upserts, deletes and clears over any UIDs, self links included",
  "Tests put one link between two fresh UIDs; a second link from or to the same UID is never put.",
  [L],[("put and the two index maps",L)],[("from","origin -> end -> link",L),("to","end -> origin -> link",L)],["GetFrom","GetTo"])
p("C19","A plain put keeps the cached link, an upsert replaces it in both indexes",
  "Putting a link for a pair (from, to) that is already cached leaves the cached link in place and returns no error; with upsert the new link replaces it in both indexes. Neither ever adds a second link for the pair or disturbs links of other pairs.",
  H,"every cache content and every link put",
  "The upsert test re-puts the same object, so replacement and non-replacement look alike.",
  [L],[("put with Upsert",L)],(),["Put","GetFrom","GetTo"])
p("C20","Deleting a UID drops all its links in both directions and nothing else",
  "After Delete(u) no link from or to u is returned by any lookup, of u or of any other UID, and all other links are still returned; deleting an unknown UID changes nothing. Clear leaves no link at all and the cache usable.",
  H,"every cache content and every UID",
  "The test deletes the origin of the only link and looks up that origin only.",
  [L],[("delete/Clear",L)],(),["Delete","Clear","GetFrom","GetTo"])
p("C21","Bulk cache calls equal the same single calls",
  "BulkPut and BulkDelete have the effect of the single calls in list order, with the same options. BulkGetFrom and BulkGetTo return, for every requested UID that has links, exactly what GetFrom and GetTo return, and nothing for UIDs that were not requested or have no links.",
  H,"every list of links or UIDs, repeats and unknown ones included",
  "Tests compare only lengths on disjoint links.",
  [L],[("BulkPut/BulkGetFrom/BulkGetTo/BulkDelete",L)],(),["BulkPut","BulkGetFrom","BulkGetTo","BulkDelete"])
p("C22","Concurrent cache and plan use is race-free and never blocks for ever",
  "Operations on one links cache, and operations on one plan, called from several goroutines all complete without panic, deadlock or unsynchronised memory access. Readers see each single put, upsert, delete or clear entirely or not at all, so both indexes agree whenever no update is in progress.",
  ["schedules"],"every interleaving of concurrent operations on shared UIDs",
  "No cache or plan test starts a goroutine.",
  [L,"pkg/plan/simple/simple.go"],[("RWMutex mu",L),("RWMutex mu","pkg/plan/simple/simple.go")],(),["all methods"])
PL="pkg/plan/simple/simple.go"
p("C23","A plan is exactly the set of resources added and not deleted",
  "Get returns the resource last added under that UID (UIDs compared by value) if it was not deleted since, and ErrResourceNotFound otherwise; GetAll returns each resource in the plan exactly once. Delete removes exactly the given UID and is a no-op for an unknown one.",
  H,"every history of adds and deletes over any UIDs",
  "Tests add and delete one resource.",
  [PL],[("index",PL)],[("index","UID string -> resource",PL)],["Add","Get","GetAll","Delete"])

A="pkg/attrs/memory/memory.go"
p("C24","Attributes behave as a map and copies are independent",
  "After any sequence of Set calls Get returns the last value set for the key, or the empty string if none, and Keys, ToMap and the DOT attribute list each contain every key exactly once with its current value. Attributes made by copying or from a map equal their source when made and are independent of it afterwards (a copy of nil is empty); an error from the source is returned, and the DOT list, which has none to return, is then empty.",
  H,"every sequence of keys and values (empty ones included), every source",
  "Tests set one or two fixed keys and compare counts.",
  [A,"pkg/attrs/memory/dot.go","pkg/attrs/attrs.go"],[("Attrs map",A),("ToMap","pkg/attrs/attrs.go"),("DOTAttrs","pkg/attrs/memory/dot.go")],(),["Keys","Get","Set","Attributes","ToMap"])

E="pkg/space/entity/"
p("C25","Entities, resources, objects and links keep what they were given",
  "Every constructed entity, resource, object and link reports exactly the type, names, namespace, resource, end points, UID and attributes it was created with; without a UID option it gets a fresh one different from every other, and without attributes a fresh empty set of its own. The DOT ID is the option if non-empty, else group/version/kind for a resource, group/version/kind/namespace/name for an object with a resource, and the UID otherwise, until it is set explicitly.",
  ["inputs"],"every value of every field (empty strings included), every option combination",
  "Tests use one fixed value per field.",
  [E+"entity.go",E+"object.go",E+"resource.go","pkg/space/link/link.go","pkg/uuid/memory/default.go"],[("constructors",E)],(),["New","NewObject","NewResource","link.New"])
M="pkg/space/marshal/"
p("C26","Converting to the wire form and back preserves everything",
  "Converting any entity, resource, object (with or without resource) or link to its serialisable form and back yields one with the same UID, type, names, namespace, group, version, kind, namespaced flag, end points, attributes and, for an object, the same resource. The result shares no attributes with the original, and an error reading attributes is returned.",
  ["inputs"],"every field value, every attribute map up to the bound",
  "Tests convert one fixture per type and check only that no error occurs.",
  [M+"marshal.go",M+"types.go"],[("XToSpace/XFromSpace",M+"marshal.go")],(),["EntityFromSpace","EntityToSpace","..."])
p("C27","JSON marshalling round-trips every kind and distinguishes them",
  "For every entity, resource, object (with or without resource) and link whose strings are valid UTF-8, marshalling to JSON and unmarshalling into the same kind yields an equal value: all fields, attributes and the nested resource.",
  ["inputs"],"every field value, every attribute map up to the bound",
  "Tests marshal and unmarshal fixtures separately and never compare the two ends.",
  [M+"json/json.go",M+"marshal.go",M+"types.go"],[("Marshal/Unmarshal",M+"json/json.go"),("json tags",M+"types.go")],(),["Marshal","Unmarshal"])
p("C28","JSON errors are reported and leave the target alone",
  "Marshalling or unmarshalling a value of an unsupported type returns ErrUnsuportedType. Unmarshalling bytes that are not valid JSON for the requested kind returns an error and leaves the target as it was; unmarshalling valid JSON sets every field present in it and leaves the others zero, without error.",
  ["inputs","fault_sequences"],"every document shape, every target kind",
  "Tests unmarshal one valid fixture per kind.",
  [M+"json/json.go"],[("Unmarshal",M+"json/json.go")],(),["Marshal","Unmarshal"])

B="pkg/broker/memory/memory.go"; BS="pkg/broker/memory/subscriber.go"
p("C30","Messages reach one handler, unchanged, in order, on their topic",
  "Every message accepted on a topic is passed to at most one handler of that topic, unchanged and never twice, and to a handler of no other topic; messages published one after another on a topic are received in that order. With a receiver waiting or coming, an accepted message is delivered unless a Receive on that topic times out or the session closes.",
  ["schedules","histories","inputs"],"every interleaving of publishers and subscribers, every topic name and message",
  "Tests send one message to one receiver on one topic.",
  [B,BS],[("topic queue",B),("Receive",BS)],[("topics","topic -> queue",B)],["Pub","Receive"])
p("C31","A successful publish means the message was accepted",
  "Pub returns nil only if the message was put on the topic's queue or handed to a receiver. If the queue stays full until the publish timeout (the call's, else the broker's, else the default) it returns ErrTimeout; if its context ends first it returns an error, and if the session ends first it returns an error; in none of these cases is the message delivered, and a cancelled publish does not disturb the session or other users.",
  ["schedules","fault_sequences"],"every point at which context, session or timeout ends relative to the publish",
  "Tests publish with a background context on an open broker only; the timeout is tried once.",
  [B],[("publishMsg",B)],(),["Pub"])
p("C32","A topic buffers exactly the configured number of messages",
  "With capacity n >= 0 exactly n messages can be published on a topic with no receiver before a further publish blocks until it times out, independently for every topic; a negative capacity means the default of 100. Each receive makes room for exactly one more.",
  ["inputs","configurations"],"every capacity, every topic",
  "Tests use capacities 0, 1 and 2 and one topic, and never publish one too many except at 0.",
  [B],[("New/Pub/Sub queue creation",B)],[("size","queue capacity",B)],["New","Pub"])
p("C33","The broker is usable exactly while its session is open",
  "Pub and Sub fail with ErrNotConnected before Open, after Close and after the context given to Open has ended, and work in between. Open on an open broker and Close on a closed one are no-ops without error, in any order and number, also when called concurrently.",
  ["histories","schedules"],"every sequence and interleaving of open, close, cancel, publish and subscribe",
  "Tests call Open twice and Close twice in one order, with a background context.",
  [B],[("connected",B),("run",B)],[("connected","session is open",B),("exit","session end signal",B)],["Open","Close","Pub","Sub"])
p("C34","A new session starts fresh and outlives the old one's shutdown",
  "After Close and a new Open, no message and no subscription of the earlier session is delivered or served, publishing and receiving work on every topic including ones used before, and the session stays open until it is itself closed or cancelled, however late the earlier session's cleanup runs or its context is cancelled.",
  ["schedules","histories"],"every interleaving of the old session's cleanup with the new session",
  "No test reopens a broker.",
  [B],[("Close",B),("run",B)],[("topics","topic queues",B),("exit","session end signal",B)],["Open","Close","Pub","Receive"])
p("C35","Unsubscribing is final, idempotent and affects that subscriber only",
  "Once Unsubscribe has returned, Receive on that subscriber returns ErrSubscriptionInactive without calling the handler or consuming a message, and other subscribers of the topic still receive. Unsubscribe may be called any number of times and concurrently, before or after the session ends, without error or panic; subscriber IDs are unique and Topic and ID never change.",
  ["schedules","histories"],"every number and interleaving of unsubscribe, receive and close",
  "Tests unsubscribe twice in sequence.",
  [BS],[("Unsubscribe",BS),("active",BS)],[("active","subscription is live",BS)],["Unsubscribe","Receive"])
p("C36","No broker call blocks for ever",
  "A Pub or Receive that is blocked returns when its context ends, its timeout expires or the session closes (by Close or by the Open context), and a blocked Receive also when its subscription is unsubscribed; a Receive that timed out returns ErrTimeout. Receive returns nil only after its handler accepted a message, and returns the handler's error when it failed.",
  ["schedules","fault_sequences"],"every moment at which the context, session, subscription or timeout ends",
  "No test ends a context, session or subscription while a call is blocked.",
  [B,BS],[("select in publishMsg",B),("select in Receive",BS)],(),["Pub","Receive","Close"])
p("C37","Concurrent broker use never panics, deadlocks or races",
  "Open, Close, Pub, Sub, Receive and Unsubscribe called from several goroutines in any combination never panic, never deadlock and never access memory without synchronisation, and after the session is closed no goroutine started by the broker keeps running.",
  ["schedules"],"every interleaving of concurrent broker calls",
  "One test publishes from two goroutines; nothing else is concurrent.",
  [B,BS],[("RWMutex",B),("RWMutex",BS),("run goroutine",B)],(),["all methods"])

I="pkg/broker/ingester/simple/ingester.go"; D="pkg/broker/digester/simple/digester.go"
p("C38","Ingest publishes exactly one message holding the marshalled data",
  "Ingest publishes on the given topic exactly one message of the given type whose payload is the given data as marshalled by the marshaler of the call, else the one the ingester was created with, else JSON. If marshalling fails nothing is published and that error is returned; an error from publishing is returned.",
  ["inputs","fault_sequences","configurations"],"every topic, type, marshaler, data and failure",
  "The package has no tests.",
  [I],[("Ingest",I)],(),["Ingest"])
p("C39","Digest handles messages until an error or the end of its context",
  "Digest passes each received message exactly once to the handler of the call, else the one the digester was created with, else the stdout dump, which writes exactly the message payload. It keeps receiving until a receive or the handler fails, returns that error and receives nothing more, and it returns once its context has ended or the session it reads from is closed.",
  ["histories","fault_sequences","configurations"],"every sequence of receive results, every handler result, every moment of cancellation",
  "The package has no tests.",
  [D,"pkg/broker/handlers/handlers.go"],[("handle loop",D),("DumpData","pkg/broker/handlers/handlers.go")],(),["Digest"])
p("C40","A run hands the plan and effective options to the scraper",
  "Run calls the scraper exactly once with the given context and plan and with options that yield the store, broker and marshaler given to Run, or, for each one not given to Run, the one given to NewRunner; it returns the scraper's error.",
  ["inputs","configurations"],"every combination of options given at construction and at the call",
  "The root package has no tests.",
  ["runner.go","options.go"],[("Run","runner.go")],(),["Run"])
p("C41","Generated UIDs are unique and UIDs print as given",
  "A UID made from a string prints exactly that string. Generated UIDs are canonical 36-character UUID strings, and two of them are equal only if the random source returned the same random bits.",
  ["inputs"],"every string, every output of the random source",
  "Tests check that one generated UID is not empty.",
  ["pkg/uuid/memory/default.go"],[("New/NewFromString","pkg/uuid/memory/default.go")],(),["New","NewFromString","String"])
p("C42","Message types have distinct names, unknown values included",
  "The string form of each defined message type is its own name, distinct from all others, and every other value prints as Unknown without panicking.",
  ["inputs"],"every integer value of the type",
  "No test prints a message type.",
  ["pkg/broker/type.go"],[("Type.String","pkg/broker/type.go")],(),["Type.String"])

p("C43","Separately made instances share nothing",
  "Graphs, stores, caches, plans, attribute sets and brokers made by separate calls of their constructors are independent: whatever is done to one of them never shows on another, even when both hold the same UIDs, keys, topics or values, and several goroutines may each use an instance of their own at the same time without synchronising with each other.",
  ["histories","inputs","schedules"],"every pair of instances of any kind and content, every operation on one of them, every interleaving of two goroutines that each own one",
  "Tests make one instance of each kind at a time, so state shared through a package variable, a cached default or an aliased slice never shows.",
  gfiles+["pkg/store/memory/store.go","pkg/cache/memory/links.go","pkg/plan/simple/simple.go","pkg/attrs/memory/memory.go","pkg/broker/memory/memory.go"],
  [("NewWDG/NewWUG",G),("NewStore","pkg/store/memory/store.go"),("NewLinks","pkg/cache/memory/links.go"),("NewSimple","pkg/plan/simple/simple.go"),("New","pkg/attrs/memory/memory.go"),("New","pkg/broker/memory/memory.go")],
  (),["Node","Edge","Get","GetAll","Keys","Receive"])
p("C44","Every option sets exactly what it is named after",
  "Applying a functional option of any package sets the one field it is named after to exactly the value given and leaves every other field as it was; options apply in the order given and the last one of a kind wins. No two error values of one package are the same value, so a caller can tell them apart.",
  ["inputs","histories"],"every sequence of options with any values, applied to options holding any values",
  "Tests give each option at most once, on fresh options, and look at one field.",
  ["options.go","pkg/graph/options.go","pkg/store/options.go","pkg/store/memory/options.go","pkg/cache/options.go","pkg/broker/options.go","pkg/broker/ingester/options.go","pkg/broker/digester/options.go","pkg/space/entity/options.go","pkg/space/link/options.go"],
  [("With* options","options.go of each package")],(),["With*"])
p("C29","Graphs and stores keep the identity they were given",
  "A graph or store made with a UID reports exactly that UID for its whole life, one made without reports a fresh UID different from all others; a graph's DOT ID is the one given, or its UID when none (or an empty one) is given. A subgraph takes its identity from the options of that call, otherwise a fresh one of its own, and taking it leaves the source graph's identity unchanged. The DOT attributes given for the graph, its nodes and its edges are the ones it reports. A store always returns the very graph it was made with, or, when none was given, one undirected graph of its own that starts empty.",
  ["inputs","configurations","histories"],"every combination and order of identity options with any strings, every operation in between",
  "Tests give one UID to one graph and look at it once, before using the graph.",
  [WG,G+"wdg.go",G+"wug.go","pkg/store/memory/store.go"],[("NewWDG/NewWUG",G),("SubGraph","%s:SubGraph"%WG),("NewStore","pkg/store/memory/store.go")],
  [("uid","identity of the graph",WG),("dotid","DOT ID of the graph",WG)],["UID","DOTID","Graph"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
P.sort(key=lambda x:x["id"])
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P),"properties")
