From 6f127477a29207775cbbc3c6f10b9ea28edfdb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 01/26] fix: keep other cached links of a UID when putting a
 new one

---
 pkg/cache/memory/links.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/cache/memory/links.go b/pkg/cache/memory/links.go
index 489f89d..53d313f 100644
--- a/pkg/cache/memory/links.go
+++ b/pkg/cache/memory/links.go
@@ -35,11 +35,11 @@ func (c *Links) put(ctx context.Context, link cache.Link, opts ...cache.Option)
 
 	f, t := link.From(), link.To()
 
-	if c.from[f][t] == nil {
+	if c.from[f] == nil {
 		c.from[f] = make(map[uuid.UID]cache.Link)
 	}
 
-	if c.to[t][f] == nil {
+	if c.to[t] == nil {
 		c.to[t] = make(map[uuid.UID]cache.Link)
 	}
 
-- 
2.43.0


From 255ae05a8da84bf7d6515cb78c07e00a20c3218a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 02/26] fix: delete cached links of a UID from both indexes

---
 pkg/cache/memory/links.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/cache/memory/links.go b/pkg/cache/memory/links.go
index 53d313f..c1f8d5f 100644
--- a/pkg/cache/memory/links.go
+++ b/pkg/cache/memory/links.go
@@ -103,6 +103,12 @@ func (c *Links) GetTo(ctx context.Context, uid uuid.UID, opts ...cache.Option) (
 }
 
 func (c *Links) delete(ctx context.Context, uid uuid.UID, opts ...cache.Option) error {
+	for from := range c.to[uid] {
+		delete(c.from[from], uid)
+	}
+	for to := range c.from[uid] {
+		delete(c.to[to], uid)
+	}
 	delete(c.to, uid)
 	delete(c.from, uid)
 	return nil
-- 
2.43.0


From 7342d4087e88cf570063314fa55707b5de5c530e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 03/26] fix: index cached links by UID value, not by UID
 pointer

---
 pkg/cache/memory/links.go | 41 ++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/pkg/cache/memory/links.go b/pkg/cache/memory/links.go
index c1f8d5f..9e881e0 100644
--- a/pkg/cache/memory/links.go
+++ b/pkg/cache/memory/links.go
@@ -11,9 +11,9 @@ import (
 // Links in is-memory cache.Link cache.
 type Links struct {
 	// from indexes from->to links.
-	from map[uuid.UID]map[uuid.UID]cache.Link
+	from map[string]map[string]cache.Link
 	// to indexes to<-from links.
-	to map[uuid.UID]map[uuid.UID]cache.Link
+	to map[string]map[string]cache.Link
 	// mu synchronizes access to Links
 	mu *sync.RWMutex
 }
@@ -21,8 +21,8 @@ type Links struct {
 // NewLinks creates a new Links cache and returns it
 func NewLinks() (*Links, error) {
 	return &Links{
-		from: make(map[uuid.UID]map[uuid.UID]cache.Link),
-		to:   make(map[uuid.UID]map[uuid.UID]cache.Link),
+		from: make(map[string]map[string]cache.Link),
+		to:   make(map[string]map[string]cache.Link),
 		mu:   &sync.RWMutex{},
 	}, nil
 }
@@ -33,14 +33,14 @@ func (c *Links) put(ctx context.Context, link cache.Link, opts ...cache.Option)
 		apply(&copts)
 	}
 
-	f, t := link.From(), link.To()
+	f, t := link.From().String(), link.To().String()
 
 	if c.from[f] == nil {
-		c.from[f] = make(map[uuid.UID]cache.Link)
+		c.from[f] = make(map[string]cache.Link)
 	}
 
 	if c.to[t] == nil {
-		c.to[t] = make(map[uuid.UID]cache.Link)
+		c.to[t] = make(map[string]cache.Link)
 	}
 
 	if copts.Upsert {
@@ -66,7 +66,7 @@ func (c *Links) Put(ctx context.Context, link cache.Link, opts ...cache.Option)
 	return c.put(ctx, link, opts...)
 }
 
-func (c *Links) get(ctx context.Context, uid uuid.UID, index map[uuid.UID]cache.Link, opts ...cache.Option) ([]cache.Link, error) {
+func (c *Links) get(ctx context.Context, uid uuid.UID, index map[string]cache.Link, opts ...cache.Option) ([]cache.Link, error) {
 	lx := make([]cache.Link, len(index))
 
 	i := 0
@@ -83,7 +83,7 @@ func (c *Links) GetFrom(ctx context.Context, uid uuid.UID, opts ...cache.Option)
 	c.mu.RLock()
 	defer c.mu.RUnlock()
 
-	if from, ok := c.from[uid]; ok {
+	if from, ok := c.from[uid.String()]; ok {
 		return c.get(ctx, uid, from, opts...)
 	}
 
@@ -95,7 +95,7 @@ func (c *Links) GetTo(ctx context.Context, uid uuid.UID, opts ...cache.Option) (
 	c.mu.RLock()
 	defer c.mu.RUnlock()
 
-	if to, ok := c.to[uid]; ok {
+	if to, ok := c.to[uid.String()]; ok {
 		return c.get(ctx, uid, to, opts...)
 	}
 
@@ -103,14 +103,15 @@ func (c *Links) GetTo(ctx context.Context, uid uuid.UID, opts ...cache.Option) (
 }
 
 func (c *Links) delete(ctx context.Context, uid uuid.UID, opts ...cache.Option) error {
-	for from := range c.to[uid] {
-		delete(c.from[from], uid)
+	id := uid.String()
+	for from := range c.to[id] {
+		delete(c.from[from], id)
 	}
-	for to := range c.from[uid] {
-		delete(c.to[to], uid)
+	for to := range c.from[id] {
+		delete(c.to[to], id)
 	}
-	delete(c.to, uid)
-	delete(c.from, uid)
+	delete(c.to, id)
+	delete(c.from, id)
 	return nil
 }
 
@@ -126,8 +127,8 @@ func (c *Links) Clear(ctx context.Context, opts ...cache.Option) error {
 	c.mu.Lock()
 	defer c.mu.Unlock()
 
-	c.from = make(map[uuid.UID]map[uuid.UID]cache.Link)
-	c.to = make(map[uuid.UID]map[uuid.UID]cache.Link)
+	c.from = make(map[string]map[string]cache.Link)
+	c.to = make(map[string]map[string]cache.Link)
 
 	return nil
 }
@@ -154,7 +155,7 @@ func (c *Links) BulkGetFrom(ctx context.Context, uids []uuid.UID, opts ...cache.
 
 	for _, uid := range uids {
 		lx := []cache.Link{}
-		from, ok := c.from[uid]
+		from, ok := c.from[uid.String()]
 		if !ok {
 			continue
 		}
@@ -177,7 +178,7 @@ func (c *Links) BulkGetTo(ctx context.Context, uids []uuid.UID, opts ...cache.Op
 
 	for _, uid := range uids {
 		lx := []cache.Link{}
-		to, ok := c.to[uid]
+		to, ok := c.to[uid.String()]
 		if !ok {
 			continue
 		}
-- 
2.43.0


From b3c2d35a9da204165decb78895f22ed9bd525af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:12 +0000
Subject: [PATCH 04/26] fix: return every entity from store BulkGet

---
 pkg/store/memory/store.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/store/memory/store.go b/pkg/store/memory/store.go
index 0567a14..5b49469 100644
--- a/pkg/store/memory/store.go
+++ b/pkg/store/memory/store.go
@@ -200,8 +200,7 @@ func (m *Memory) BulkGet(ctx context.Context, uids []uuid.UID, opts ...store.Opt
 
 	ents := make([]store.Entity, len(uids))
 
-	i := 0
-	for _, uid := range uids {
+	for i, uid := range uids {
 		e, err := m.get(ctx, uid, opts...)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From d4b9339a06fadca190aefc33cef97284e9972c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:51 +0000
Subject: [PATCH 05/26] fix: release the graph read lock after DOT export

---
 pkg/graph/memory/wg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 557325d..122f7b0 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -411,7 +411,7 @@ func (g *WG) DOTAttributers() (graph, node, edge encoding.Attributer) {
 // DOT returns the GrapViz dot representation of the graph.
 func (g *WG) DOT() (string, error) {
 	g.mu.RLock()
-	defer g.mu.RLock()
+	defer g.mu.RUnlock()
 
 	b, err := dot.Marshal(g.WeightedGraphBuilder, "", "", "  ")
 	if err != nil {
-- 
2.43.0


From a6f2c4aad05bddde5a99a093aa686761f7fec61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:51 +0000
Subject: [PATCH 06/26] fix: hold the graph lock for all of Link

---
 pkg/graph/memory/wg.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 122f7b0..f26fcf9 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -188,33 +188,27 @@ func (g *WG) RemoveNode(ctx context.Context, uid uuid.UID, opts ...graph.Option)
 // Link creates a new link (edge) between from and to and returns it or it returns the existing edge.
 // It returns error if either of the nodes does not exist in the graph.
 func (g *WG) Link(ctx context.Context, from, to uuid.UID, opts ...graph.Option) (graph.Edge, error) {
-	g.mu.RLock()
-	e, err := g.Edge(ctx, from, to)
+	g.mu.Lock()
+	defer g.mu.Unlock()
+
+	e, err := g.edge(from, to)
 	if err != nil && !errors.Is(err, graph.ErrEdgeNotExist) {
-		g.mu.RUnlock()
 		return nil, err
 	}
 
 	if e != nil {
-		g.mu.RUnlock()
 		return e, nil
 	}
 
 	f, ok := g.nodes[from.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil, graph.ErrNodeNotFound
 	}
 
 	t, ok := g.nodes[to.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil, graph.ErrNodeNotFound
 	}
-	g.mu.RUnlock()
-
-	g.mu.Lock()
-	defer g.mu.Unlock()
 
 	edge, err := NewEdge(f.(*Node), t.(*Node), opts...)
 	if err != nil {
@@ -226,11 +220,9 @@ func (g *WG) Link(ctx context.Context, from, to uuid.UID, opts ...graph.Option)
 	return edge, nil
 }
 
-// Edge returns edge between nodes with the given UIDs.
-func (g *WG) Edge(ctx context.Context, uid, vid uuid.UID) (graph.Edge, error) {
-	g.mu.RLock()
-	defer g.mu.RUnlock()
-
+// edge returns edge between nodes with the given UIDs.
+// The caller must hold the graph lock.
+func (g *WG) edge(uid, vid uuid.UID) (graph.Edge, error) {
 	from, ok := g.nodes[uid.String()]
 	if !ok {
 		return nil, graph.ErrNodeNotFound
@@ -251,6 +243,14 @@ func (g *WG) Edge(ctx context.Context, uid, vid uuid.UID) (graph.Edge, error) {
 	return nil, graph.ErrEdgeNotExist
 }
 
+// Edge returns edge between nodes with the given UIDs.
+func (g *WG) Edge(ctx context.Context, uid, vid uuid.UID) (graph.Edge, error) {
+	g.mu.RLock()
+	defer g.mu.RUnlock()
+
+	return g.edge(uid, vid)
+}
+
 // Edges returns all the edges (lines) from u to v.
 func (g *WG) Edges(ctx context.Context) ([]graph.Edge, error) {
 	g.mu.RLock()
-- 
2.43.0


From a0a484abc047ef8d1f4a335a45152a2f7346ebfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:51 +0000
Subject: [PATCH 07/26] fix: hold the graph lock for all of RemoveNode and
 Unlink

---
 pkg/graph/memory/wg.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index f26fcf9..3ad65f1 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -162,22 +162,19 @@ func (g *WG) Nodes(ctx context.Context) ([]graph.Node, error) {
 
 // RemoveNode removes the node with the given uid from graph.
 func (g *WG) RemoveNode(ctx context.Context, uid uuid.UID, opts ...graph.Option) error {
-	g.mu.RLock()
+	g.mu.Lock()
+	defer g.mu.Unlock()
+
 	node, ok := g.nodes[uid.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil
 	}
-	g.mu.RUnlock()
 
 	gnode, ok := node.(*Node)
 	if !ok {
 		return graph.ErrInvalidNode
 	}
 
-	g.mu.Lock()
-	defer g.mu.Unlock()
-
 	g.WeightedGraphBuilder.RemoveNode(gnode.ID())
 
 	delete(g.nodes, uid.String())
@@ -293,26 +290,23 @@ func (g *WG) From(ctx context.Context, uid uuid.UID) ([]graph.Node, error) {
 // Unlink removes the link between from and to nodes.
 // If neither of the nodes with given UIDs exist it returns nil.
 func (g *WG) Unlink(ctx context.Context, from, to uuid.UID, opts ...graph.Option) error {
-	g.mu.RLock()
+	g.mu.Lock()
+	defer g.mu.Unlock()
+
 	f, ok := g.nodes[from.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil
 	}
 
 	t, ok := g.nodes[to.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil
 	}
-	g.mu.RUnlock()
 
 	// NOTE: it's safe to switch type without checking if possible
 	// the nodes in g.nodes are guaranteed to be *Nodes since the only
 	// way to add nodes in is via AddNode which does type assertion
-	g.mu.Lock()
 	g.WeightedGraphBuilder.RemoveEdge(f.(*Node).ID(), t.(*Node).ID())
-	g.mu.Unlock()
 
 	return nil
 }
-- 
2.43.0


From e0c442b039a9e2d56c40c84df2fcf1cee8f0231d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:52 +0000
Subject: [PATCH 08/26] fix: identify graph nodes by UID when adding and
 replace them on upsert

---
 pkg/graph/memory/wg.go | 48 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 3ad65f1..9df0b70 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -97,7 +97,7 @@ func (g *WG) NewNode(ctx context.Context, ent graph.Entity, opts ...graph.Option
 // AddNode allows to perform an upsert operation on the graph.
 // Upsert updates the node with the same UID if the node exists in the graph.
 // If upsert is not requested and the node already exists an error is returned.
-// It panics if n.ID() is not unique within the graph.
+// It also returns an error if n.ID() belongs to a node with another UID.
 // It returns error if n is not memory.Node.
 func (g *WG) AddNode(ctx context.Context, n graph.Node, opts ...graph.Option) error {
 	gopts := graph.Options{}
@@ -113,25 +113,55 @@ func (g *WG) AddNode(ctx context.Context, n graph.Node, opts ...graph.Option) er
 	g.mu.Lock()
 	defer g.mu.Unlock()
 
+	old, exists := g.nodes[n.UID().String()]
+	if exists && !gopts.Upsert {
+		return graph.ErrDuplicateNode
+	}
+
 	if node := g.WeightedGraphBuilder.Node(gnode.ID()); node != nil {
-		if _, ok := g.nodes[n.UID().String()]; ok {
-			if !gopts.Upsert {
-				return graph.ErrDuplicateNode
-			}
-			g.nodes[n.UID().String()] = n
+		if !exists || old.(*Node).ID() != gnode.ID() {
+			return graph.ErrDuplicateNode
 		}
+	}
 
-		g.nodes[n.UID().String()] = n
-
-		return nil
+	var edges []*Edge
+	if exists {
+		edges = g.moveEdges(old.(*Node), gnode)
+		g.WeightedGraphBuilder.RemoveNode(old.(*Node).ID())
 	}
 
 	g.WeightedGraphBuilder.AddNode(gnode)
 	g.nodes[n.UID().String()] = n
 
+	for _, e := range edges {
+		g.SetWeightedEdge(e)
+	}
+
 	return nil
 }
 
+// moveEdges returns copies of all the edges of node from moved to node to.
+func (g *WG) moveEdges(from, to *Node) []*Edge {
+	var edges []*Edge
+
+	for _, we := range gonum.WeightedEdgesOf(g.WeightedGraphBuilder.WeightedEdges()) {
+		e := *we.(*Edge)
+
+		switch from.ID() {
+		case e.from.ID():
+			e.from = to
+		case e.to.ID():
+			e.to = to
+		default:
+			continue
+		}
+
+		edges = append(edges, &e)
+	}
+
+	return edges
+}
+
 // Node returns the node with the given ID if it exists
 // in the graph, and error if it could not be found.
 func (g *WG) Node(ctx context.Context, uid uuid.UID) (graph.Node, error) {
-- 
2.43.0


From 8ad21793febda0127f540e02e243b59284c67472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:53 +0000
Subject: [PATCH 09/26] fix: hold the read lock while building a subgraph

---
 pkg/graph/memory/wg.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 9df0b70..b3b9d28 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -344,12 +344,12 @@ func (g *WG) Unlink(ctx context.Context, from, to uuid.UID, opts ...graph.Option
 // SubGraph returns the subgraph of the graph rooted in the node with the given uid up to the given depth.
 func (g *WG) SubGraph(ctx context.Context, uid uuid.UID, depth int, opts ...graph.Option) (graph.Graph, error) {
 	g.mu.RLock()
+	defer g.mu.RUnlock()
+
 	root, ok := g.nodes[uid.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil, graph.ErrNodeNotFound
 	}
-	g.mu.RUnlock()
 
 	sg, err := NewWDG(opts...)
 	if err != nil {
@@ -375,11 +375,9 @@ func (g *WG) SubGraph(ctx context.Context, uid uuid.UID, depth int, opts ...grap
 		Visit: visit,
 	}
 
-	g.mu.RLock()
 	_ = bfs.Walk(g.WeightedGraphBuilder, root.(*Node), func(n gonum.Node, d int) bool {
 		return d == depth
 	})
-	g.mu.RUnlock()
 
 	if sgErr != nil {
 		return nil, sgErr
-- 
2.43.0


From edd8575c96bc2128948bd9ae408dc53b3b631f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:53 +0000
Subject: [PATCH 10/26] fix: copy the edge between two subgraph nodes, not any
 edge

---
 pkg/graph/memory/wg.go | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index b3b9d28..76cdf4c 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -389,25 +389,20 @@ func (g *WG) SubGraph(ctx context.Context, uid uuid.UID, depth int, opts ...grap
 			pnode := nodes.Node()
 			peer := pnode.(*Node)
 			if to, ok := sgNodes[peer.ID()]; ok {
-				if edges := g.WeightedEdges(); edges != nil {
-					for edges.Next() {
-						we := edges.WeightedEdge()
-						e := we.(*Edge)
-
-						a, err := memattrs.NewCopyFrom(ctx, e.Attrs())
-						if err != nil {
-							return nil, fmt.Errorf("subgraph %s attr copy error: %v", sg.UID(), err)
-						}
-
-						opts := []graph.Option{
-							graph.WithAttrs(a),
-							graph.WithWeight(e.Weight()),
-						}
-
-						if _, err := sg.Link(ctx, node.UID(), to.UID(), opts...); err != nil {
-							return nil, fmt.Errorf("subgraph %s link error: %v", sg.UID(), err)
-						}
-					}
+				e := g.WeightedEdge(id, peer.ID()).(*Edge)
+
+				a, err := memattrs.NewCopyFrom(ctx, e.Attrs())
+				if err != nil {
+					return nil, fmt.Errorf("subgraph %s attr copy error: %v", sg.UID(), err)
+				}
+
+				opts := []graph.Option{
+					graph.WithAttrs(a),
+					graph.WithWeight(e.Weight()),
+				}
+
+				if _, err := sg.Link(ctx, node.UID(), to.UID(), opts...); err != nil {
+					return nil, fmt.Errorf("subgraph %s link error: %v", sg.UID(), err)
 				}
 			}
 		}
-- 
2.43.0


From 0b6d0075252cdc7b6ec1a213478278115d3c05b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 11/26] fix: return an error when linking a node to itself

---
 pkg/graph/memory/wg.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 76cdf4c..5f93497 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -237,6 +237,10 @@ func (g *WG) Link(ctx context.Context, from, to uuid.UID, opts ...graph.Option)
 		return nil, graph.ErrNodeNotFound
 	}
 
+	if f == t {
+		return nil, fmt.Errorf("self link of %s: %w", from, graph.ErrUnsupported)
+	}
+
 	edge, err := NewEdge(f.(*Node), t.(*Node), opts...)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From eb0d22e3d1c39e9175a496de6e963bfac9d1bf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 12/26] fix: give edges the default weight when none is given

---
 pkg/graph/memory/edge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/graph/memory/edge.go b/pkg/graph/memory/edge.go
index e083b24..350180c 100644
--- a/pkg/graph/memory/edge.go
+++ b/pkg/graph/memory/edge.go
@@ -28,7 +28,7 @@ type Edge struct {
 // If both WithUID and WithDOTID are provided
 // DOTID overrides the UID value.
 func NewEdge(from, to *Node, opts ...graph.Option) (*Edge, error) {
-	eopts := graph.Options{}
+	eopts := graph.Options{Weight: graph.DefaultWeight}
 	for _, apply := range opts {
 		apply(&eopts)
 	}
-- 
2.43.0


From 5f279a5313a683bcf5087312fd061b9471556f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 13/26] fix: replace the stored entity on store upsert

---
 pkg/store/memory/store.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/store/memory/store.go b/pkg/store/memory/store.go
index 5b49469..5078818 100644
--- a/pkg/store/memory/store.go
+++ b/pkg/store/memory/store.go
@@ -76,6 +76,14 @@ func (m *Memory) add(ctx context.Context, e store.Entity, opts ...store.Option)
 		return err
 	}
 
+	// NOTE: NewNode returns the existing node if e is already in the graph
+	if old, ok := n.(*memory.Node); ok && aopts.Upsert {
+		n, err = memory.NewNode(old.ID(), e, graph.WithAttrs(aopts.Attrs))
+		if err != nil {
+			return err
+		}
+	}
+
 	gopts := []graph.Option{}
 
 	if !aopts.Upsert {
-- 
2.43.0


From ea60078c69867488e9cf4b9fc07b32ce140508a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:56 +0000
Subject: [PATCH 14/26] fix: pass the runner options on to the scraper

---
 runner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runner.go b/runner.go
index 7a62861..f2eebd9 100644
--- a/runner.go
+++ b/runner.go
@@ -25,10 +25,10 @@ func NewRunner(opts ...Option) (*Runner, error) {
 
 // Run runs netscraping using scraper s.
 func (r *Runner) Run(ctx context.Context, p plan.Plan, s Scraper, opts ...Option) error {
-	sopts := Options{}
+	sopts := r.opts
 	for _, apply := range opts {
 		apply(&sopts)
 	}
 
-	return s.Scrape(ctx, p, WithBroker(sopts.Broker))
+	return s.Scrape(ctx, p, WithStore(sopts.Store), WithBroker(sopts.Broker), WithMarshaler(sopts.Marshaler))
 }
-- 
2.43.0


From c84e403d637ac5da0309b89a157da8ab7f9c11cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:56 +0000
Subject: [PATCH 15/26] fix: use the options the ingester was created with

---
 pkg/broker/ingester/simple/ingester.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/broker/ingester/simple/ingester.go b/pkg/broker/ingester/simple/ingester.go
index adacc20..d2ac488 100644
--- a/pkg/broker/ingester/simple/ingester.go
+++ b/pkg/broker/ingester/simple/ingester.go
@@ -27,7 +27,7 @@ func NewIngester(opts ...ingester.Option) (*Ingester, error) {
 
 // Ingest ingests messages to the broker marshaled with the given marshaler.
 func (in *Ingester) Ingest(ctx context.Context, b broker.Broker, topic string, msgType broker.Type, data interface{}, opts ...ingester.Option) error {
-	ropts := ingester.Options{}
+	ropts := in.opts
 	for _, apply := range opts {
 		apply(&ropts)
 	}
-- 
2.43.0


From 68612ecf13cfa6cdd911f93ffb45b686df7ec12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:56 +0000
Subject: [PATCH 16/26] fix: use the options the digester was created with

---
 pkg/broker/digester/simple/digester.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/broker/digester/simple/digester.go b/pkg/broker/digester/simple/digester.go
index acc1a8b..32530f2 100644
--- a/pkg/broker/digester/simple/digester.go
+++ b/pkg/broker/digester/simple/digester.go
@@ -37,7 +37,7 @@ func (d *Digester) handle(ctx context.Context, sub broker.Subscriber, h broker.H
 // Digest reads data from broker via sub and handles it via an optional handler.
 // If no handler has been given, the message payload is copied to stdout.
 func (d *Digester) Digest(ctx context.Context, sub broker.Subscriber, opts ...digester.Option) error {
-	dopts := digester.Options{}
+	dopts := d.opts
 	for _, apply := range opts {
 		apply(&dopts)
 	}
-- 
2.43.0


From bcc396b04bad04e198787675d7c123109dc7b88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 17/26] fix: drop topics without subscribers when the broker
 closes

---
 pkg/broker/memory/memory.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pkg/broker/memory/memory.go b/pkg/broker/memory/memory.go
index cfeedf0..a2fc2d3 100644
--- a/pkg/broker/memory/memory.go
+++ b/pkg/broker/memory/memory.go
@@ -207,13 +207,8 @@ func (m *Memory) Close() error {
 
 	close(m.exit)
 
-	for topic, subs := range m.subs {
-		for id := range subs {
-			delete(m.subs[topic], id)
-		}
-		delete(m.subs, topic)
-		delete(m.topics, topic)
-	}
+	m.subs = make(map[string]map[string]*Subscriber)
+	m.topics = make(map[string]queue)
 
 	m.connected = false
 
-- 
2.43.0


From 8afbc54fa34cb67135d2439282c343b52af08f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 18/26] fix: let broker cleanup close only the session it
 belongs to

---
 pkg/broker/memory/memory.go | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/pkg/broker/memory/memory.go b/pkg/broker/memory/memory.go
index a2fc2d3..09d3e46 100644
--- a/pkg/broker/memory/memory.go
+++ b/pkg/broker/memory/memory.go
@@ -66,16 +66,16 @@ func New(opts ...broker.Option) (*Memory, error) {
 	}, nil
 }
 
-// run starts the broker.
-func (m *Memory) run(ctx context.Context) {
-	defer m.Close()
+// run runs the broker session identified by its exit channel.
+func (m *Memory) run(ctx context.Context, exit chan struct{}, ctl chan sub) {
+	defer m.closeSession(exit)
 	for {
 		select {
 		case <-ctx.Done():
 			return
-		case <-m.exit:
+		case <-exit:
 			return
-		case sub := <-m.ctl:
+		case sub := <-ctl:
 			m.Lock()
 			if _, ok := m.subs[sub.topic]; ok {
 				delete(m.subs[sub.topic], sub.id)
@@ -103,7 +103,7 @@ func (m *Memory) Open(ctx context.Context, opts ...broker.Option) error {
 
 	// TODO: we should make sure Close() stops this goroutine
 	// Try adding it to a sync.WaitGroup
-	go m.run(ctx)
+	go m.run(ctx, m.exit, m.ctl)
 
 	return nil
 }
@@ -201,8 +201,27 @@ func (m *Memory) Close() error {
 	m.Lock()
 	defer m.Unlock()
 
+	m.close()
+
+	return nil
+}
+
+// closeSession closes the session with the given exit channel
+// unless it is closed already.
+func (m *Memory) closeSession(exit chan struct{}) {
+	m.Lock()
+	defer m.Unlock()
+
+	if m.exit == exit {
+		m.close()
+	}
+}
+
+// close closes the current session.
+// The caller must hold the broker lock.
+func (m *Memory) close() {
 	if !m.connected {
-		return nil
+		return
 	}
 
 	close(m.exit)
@@ -211,6 +230,4 @@ func (m *Memory) Close() error {
 	m.topics = make(map[string]queue)
 
 	m.connected = false
-
-	return nil
 }
-- 
2.43.0


From c0f1ca2029c0c3dfeb508018befa02d0a5f48322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 19/26] fix: make opening a broker session atomic

---
 pkg/broker/memory/memory.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pkg/broker/memory/memory.go b/pkg/broker/memory/memory.go
index 09d3e46..2a34cdc 100644
--- a/pkg/broker/memory/memory.go
+++ b/pkg/broker/memory/memory.go
@@ -87,15 +87,12 @@ func (m *Memory) run(ctx context.Context, exit chan struct{}, ctl chan sub) {
 
 // Open opens a new broker session.
 func (m *Memory) Open(ctx context.Context, opts ...broker.Option) error {
-	m.RLock()
+	m.Lock()
+	defer m.Unlock()
+
 	if m.connected {
-		m.RUnlock()
 		return nil
 	}
-	m.RUnlock()
-
-	m.Lock()
-	defer m.Unlock()
 
 	m.connected = true
 	m.exit = make(chan struct{})
-- 
2.43.0


From b1582f00f78ebe42f80662bdf33cfa16d05a1f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 20/26] fix: check the broker session and use it under one lock

---
 pkg/broker/memory/memory.go | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/pkg/broker/memory/memory.go b/pkg/broker/memory/memory.go
index 2a34cdc..adc1222 100644
--- a/pkg/broker/memory/memory.go
+++ b/pkg/broker/memory/memory.go
@@ -122,13 +122,6 @@ func (m *Memory) publishMsg(ctx context.Context, q queue, msg broker.Message, ti
 // If the topic does not exist, it is automatically created.
 // NOTE: Pub is a blocking call!
 func (m *Memory) Pub(ctx context.Context, topic string, msg broker.Message, opts ...broker.Option) error {
-	m.RLock()
-	if !m.connected {
-		m.RUnlock()
-		return broker.ErrNotConnected
-	}
-	m.RUnlock()
-
 	popts := broker.Options{}
 	for _, apply := range opts {
 		apply(&popts)
@@ -140,6 +133,11 @@ func (m *Memory) Pub(ctx context.Context, topic string, msg broker.Message, opts
 	}
 
 	m.Lock()
+	if !m.connected {
+		m.Unlock()
+		return broker.ErrNotConnected
+	}
+
 	q, ok := m.topics[topic]
 	if !ok {
 		q = queue{
@@ -155,18 +153,15 @@ func (m *Memory) Pub(ctx context.Context, topic string, msg broker.Message, opts
 
 // Sub subscribes to the given topic.
 func (m *Memory) Sub(ctx context.Context, topic string, opts ...broker.Option) (broker.Subscriber, error) {
-	m.RLock()
-	if !m.connected {
-		m.RUnlock()
-		return nil, broker.ErrNotConnected
-	}
-	m.RUnlock()
-
 	uid := memuid.New()
 
 	m.Lock()
 	defer m.Unlock()
 
+	if !m.connected {
+		return nil, broker.ErrNotConnected
+	}
+
 	q, ok := m.topics[topic]
 	if !ok {
 		q = queue{
-- 
2.43.0


From 7f3a96d22a7acab472650402d3f20c2ca5fdea67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 21/26] fix: return an error when a publish is cancelled or the
 session closes

---
 pkg/broker/memory/memory.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/broker/memory/memory.go b/pkg/broker/memory/memory.go
index adc1222..2725de5 100644
--- a/pkg/broker/memory/memory.go
+++ b/pkg/broker/memory/memory.go
@@ -108,9 +108,9 @@ func (m *Memory) Open(ctx context.Context, opts ...broker.Option) error {
 func (m *Memory) publishMsg(ctx context.Context, q queue, msg broker.Message, timeout time.Duration) error {
 	select {
 	case <-ctx.Done():
-		return m.Close()
-	case <-m.exit:
-		return nil
+		return ctx.Err()
+	case <-q.exit:
+		return broker.ErrNotConnected
 	case <-time.After(timeout):
 		return broker.ErrTimeout
 	case q.msg <- msg:
-- 
2.43.0


From ed2831d975ae60615b4db56ccb1f4e2e230cfe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 22/26] fix: take the write lock to unsubscribe

---
 pkg/broker/memory/subscriber.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/broker/memory/subscriber.go b/pkg/broker/memory/subscriber.go
index 881e479..5222d87 100644
--- a/pkg/broker/memory/subscriber.go
+++ b/pkg/broker/memory/subscriber.go
@@ -31,8 +31,8 @@ func (s *Subscriber) Topic(ctx context.Context, opts ...broker.Option) (string,
 
 // Unsubscribe unsubscribes from the topic.
 func (s *Subscriber) Unsubscribe(ctx context.Context, opts ...broker.Option) error {
-	s.RLock()
-	defer s.RUnlock()
+	s.Lock()
+	defer s.Unlock()
 
 	if s.active {
 		close(s.exit)
-- 
2.43.0


From 0b898ad7d32dd0681a99ff8b4fe12ccf6c4d9520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 23/26] fix: return an error from Receive when no message was
 received

---
 pkg/broker/memory/subscriber.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/broker/memory/subscriber.go b/pkg/broker/memory/subscriber.go
index 5222d87..3746fa5 100644
--- a/pkg/broker/memory/subscriber.go
+++ b/pkg/broker/memory/subscriber.go
@@ -71,7 +71,7 @@ func (s *Subscriber) Receive(ctx context.Context, h broker.Handler, opts ...brok
 
 	select {
 	case <-ctx.Done():
-		return nil
+		return ctx.Err()
 	case <-time.After(recvTimeout):
 		// NOTE: drop the message once the timeout expires
 		select {
@@ -80,9 +80,9 @@ func (s *Subscriber) Receive(ctx context.Context, h broker.Handler, opts ...brok
 		}
 		return broker.ErrTimeout
 	case <-s.queue.exit:
-		return nil
+		return broker.ErrNotConnected
 	case <-s.exit:
-		return nil
+		return broker.ErrSubscriptionInactive
 	case msg := <-s.queue.msg:
 		if err := h(ctx, msg); err != nil {
 			return err
-- 
2.43.0


From fea357160bb3a64e5cf8b55a3475195aa60992ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 24/26] fix: do not receive messages of a closed broker session

---
 pkg/broker/memory/subscriber.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/broker/memory/subscriber.go b/pkg/broker/memory/subscriber.go
index 3746fa5..00481f9 100644
--- a/pkg/broker/memory/subscriber.go
+++ b/pkg/broker/memory/subscriber.go
@@ -69,6 +69,13 @@ func (s *Subscriber) Receive(ctx context.Context, h broker.Handler, opts ...brok
 	}
 	s.RUnlock()
 
+	// NOTE: messages of a closed session must not be received
+	select {
+	case <-s.queue.exit:
+		return broker.ErrNotConnected
+	default:
+	}
+
 	select {
 	case <-ctx.Done():
 		return ctx.Err()
-- 
2.43.0


From 58506cbc975959928141061a1d71686a45d5bcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 25/26] fix: stop digesting when the context ends

---
 pkg/broker/digester/simple/digester.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/broker/digester/simple/digester.go b/pkg/broker/digester/simple/digester.go
index 32530f2..7fad035 100644
--- a/pkg/broker/digester/simple/digester.go
+++ b/pkg/broker/digester/simple/digester.go
@@ -28,6 +28,10 @@ func NewDigester(opts ...digester.Option) (*Digester, error) {
 // handle processes rmessages received by sub with handler h.
 func (d *Digester) handle(ctx context.Context, sub broker.Subscriber, h broker.Handler) error {
 	for {
+		if err := ctx.Err(); err != nil {
+			return err
+		}
+
 		if err := sub.Receive(ctx, h); err != nil {
 			return err
 		}
-- 
2.43.0


From f6e230343570dd0aa71fc6cec7cfb4f448ccd154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:14 +0000
Subject: [PATCH 26/26] fix: copy of nil attributes does not panic

---
 pkg/attrs/memory/memory.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pkg/attrs/memory/memory.go b/pkg/attrs/memory/memory.go
index b8b916e..5b1ba07 100644
--- a/pkg/attrs/memory/memory.go
+++ b/pkg/attrs/memory/memory.go
@@ -21,17 +21,19 @@ func New() *Attrs {
 func NewCopyFrom(ctx context.Context, a attrs.Attrs) (*Attrs, error) {
 	attrs := make(Attrs)
 
+	if a == nil {
+		return &attrs, nil
+	}
+
 	keys, err := a.Keys(ctx)
 	if err != nil {
 		return nil, err
 	}
 
-	if a != nil {
-		for _, k := range keys {
-			attrs[k], err = a.Get(ctx, k)
-			if err != nil {
-				return nil, err
-			}
+	for _, k := range keys {
+		attrs[k], err = a.Get(ctx, k)
+		if err != nil {
+			return nil, err
 		}
 	}
 
-- 
2.43.0

