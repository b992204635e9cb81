From e004234b7716e6e4555e8a39bff9ef3ad164985b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 01/25] fix: split edge strings that start with a nested edge

Parenthesis were removed from any string starting with '(', so that querying
for the edges that contain an edge (star or pattern2edges) failed.
---
 gb/hypergraph/edge.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/gb/hypergraph/edge.py b/gb/hypergraph/edge.py
index 5edb25d..f0c6d59 100644
--- a/gb/hypergraph/edge.py
+++ b/gb/hypergraph/edge.py
@@ -89,14 +89,10 @@ def parsed_token(token):
             return float(token)
 
 
-def split_edge_str(edge_str):
-    """Shallow split into tokens of a string representation of an edge,
-    with or without outer parenthesis."""
+def split_tokens(s):
+    """Shallow split into tokens of a sequence of nodes, without outer parenthesis."""
 
-    edge_inner_str = edge_str
-    if edge_str[0] == '(':
-        edge_inner_str = edge_str[1:-1]
-    stoks = edge_inner_str.split()
+    stoks = s.split()
 
     tokens = []
     curtok = None
@@ -118,6 +114,17 @@ def split_edge_str(edge_str):
     return tuple(tokens)
 
 
+def split_edge_str(edge_str):
+    """Shallow split into tokens of a string representation of an edge,
+    with or without outer parenthesis."""
+
+    tokens = split_tokens(edge_str)
+    # only remove parenthesis that enclose the whole edge
+    if len(tokens) == 1 and tokens[0][0] == '(':
+        tokens = split_tokens(tokens[0][1:-1])
+    return tokens
+
+
 def str2edge(edge_str):
     """Convert a string representation of an edge to an edge."""
     tokens = split_edge_str(edge_str)
-- 
2.43.0


From e98c49f21ee058718596ab6c0e8793e5df1b0219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 02/25] fix: accept symbols that end in balanced parenthesis

The closing parenthesis of a URL such as http://graphbrain.org/hypergraph_(graph)
was taken for the end of the edge, so edges containing it could not be read back.
---
 gb/hypergraph/edge.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gb/hypergraph/edge.py b/gb/hypergraph/edge.py
index f0c6d59..155599c 100644
--- a/gb/hypergraph/edge.py
+++ b/gb/hypergraph/edge.py
@@ -44,7 +44,14 @@ def close_pars(s):
     pos = -1
     while s[pos] == ')':
         pos -= 1
-    return -pos - 1
+    # ignore parenthesis that belong to the last symbol, e.g. http://graphbrain.org/hypergraph_(graph)
+    inner = 0
+    for c in s[open_pars(s):len(s) + pos + 1]:
+        if c == '(':
+            inner += 1
+        elif c == ')' and inner > 0:
+            inner -= 1
+    return max(-pos - 1 - inner, 0)
 
 
 def token_type(token):
-- 
2.43.0


From c3103c60c145d31ebfa5804c0c1701864627c9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:51 +0000
Subject: [PATCH 03/25] fix: type of tokens without digits and of floats in
 scientific notation

'-' and '.' were taken for numbers and could not be parsed; 1e-05 came back
as a string.
---
 gb/hypergraph/edge.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gb/hypergraph/edge.py b/gb/hypergraph/edge.py
index 155599c..68d4a6b 100644
--- a/gb/hypergraph/edge.py
+++ b/gb/hypergraph/edge.py
@@ -19,6 +19,7 @@
 #   along with GraphBrain.  If not, see <http://www.gnu.org/licenses/>.
 
 
+import re
 import gb.hypergraph.symbol as sym
 
 
@@ -57,9 +58,14 @@ def close_pars(s):
 def token_type(token):
     """Determine the type of a string token: STRING, INTEGER or DOUBLE."""
 
+    # floats that python writes in scientific notation, e.g. 1e-05
+    if re.match(r'-?[0-9]+(\.[0-9]+)?e[+-][0-9]+\Z', token):
+        return TokenType.DOUBLE
+
     s = token
     pos = 0
     point = False
+    digits = False
 
     while len(s) > 0:
         c = s[0]
@@ -73,9 +79,13 @@ def token_type(token):
                 point = True
         elif c < '0' or c > '9':
             return TokenType.STRING
+        else:
+            digits = True
         s = s[1:]
         pos += 1
 
+    if not digits:
+        return TokenType.STRING
     if point:
         return TokenType.DOUBLE
     else:
-- 
2.43.0


From bff5a38096cc015170ba47244d73461b42f6d381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 04/25] fix: patterns made only of wildcards

pattern2edges failed with an IndexError if all the elements of the pattern were wildcards.
---
 gb/hypergraph/sql.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 612f387..23bafdd 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -193,10 +193,13 @@ class SQL(Backend):
         """Return all the edges that match a pattern.
         A pattern is a collection of entity ids and wildcards (None)."""
         nodes = [node for node in pattern if node is not None]
-        start_str = ed.nodes2str(nodes)
-        end_str = str_plus_1(start_str)
         cur = self.open_cursor()
-        cur.execute('SELECT id FROM perms WHERE id>=%s AND id<%s' % (self.ph, self.ph), (start_str, end_str))
+        if len(nodes) > 0:
+            start_str = ed.nodes2str(nodes)
+            end_str = str_plus_1(start_str)
+            cur.execute('SELECT id FROM perms WHERE id>=%s AND id<%s' % (self.ph, self.ph), (start_str, end_str))
+        else:
+            cur.execute('SELECT id FROM perms')
         edges = cur2edges(cur)
         self.close_cursor(cur, local=True, commit=False)
         return set([edge for edge in edges if edge_matches_pattern(edge, pattern)])
-- 
2.43.0


From f0871908f26f631ca5ea04ce320fd3493526a78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:55 +0000
Subject: [PATCH 05/25] fix: do not confuse integers and floats when matching
 edges

exists() was true for (size x 7) if only (size x 7.0) was stored, so adding it did
nothing and removing it only decremented degrees. Edges given as nested lists never matched.
---
 gb/hypergraph/sql.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 23bafdd..306212d 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -89,7 +89,8 @@ def edge_matches_pattern(edge, pattern):
     if n != len(pattern):
         return False
     for i in range(n):
-        if (pattern[i] is not None) and (pattern[i] != edge[i]):
+        # vertices are identified by their string representations (e.g. 7 and 7.0 are not the same vertex)
+        if (pattern[i] is not None) and (ed.edge2str(pattern[i]) != ed.edge2str(edge[i])):
             return False
     return True
 
@@ -195,7 +196,7 @@ class SQL(Backend):
         nodes = [node for node in pattern if node is not None]
         cur = self.open_cursor()
         if len(nodes) > 0:
-            start_str = ed.nodes2str(nodes)
+            start_str = '%s ' % ed.nodes2str(nodes)
             end_str = str_plus_1(start_str)
             cur.execute('SELECT id FROM perms WHERE id>=%s AND id<%s' % (self.ph, self.ph), (start_str, end_str))
         else:
-- 
2.43.0


From f2108305f81167f898e05b4923b2547a760ca694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 06/25] fix: degree and timestamp closed the cursor of the
 current batch

Calling degree() or timestamp() from batch_exec made the rest of the batch fail.
---
 gb/hypergraph/sql.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 306212d..87c1873 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -302,7 +302,7 @@ class SQL(Backend):
         cur.execute('SELECT degree FROM vertices WHERE id=%s' % (self.ph,), (vert_str,))
         for row in cur:
             deg = row[0]
-            cur.close()
+            self.close_cursor(cur, local=True, commit=False)
             return deg
         self.close_cursor(cur, local=True, commit=False)
         return 0
@@ -314,7 +314,7 @@ class SQL(Backend):
         cur.execute('SELECT timestamp FROM vertices WHERE id=%s' % (self.ph,), (vert_str,))
         for row in cur:
             ts = row[0]
-            cur.close()
+            self.close_cursor(cur, local=True, commit=False)
             return ts
         self.close_cursor(cur, local=True, commit=False)
         return -1
-- 
2.43.0


From f606a0fb1c6cfd6d7df106aae901ae8b1eaaa820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:50 +0000
Subject: [PATCH 07/25] fix: preserve the degree of edges that are vertices of
 other edges

Adding or removing an edge reset its degree to 0, even if other edges contained it.
Later removals could then make the degree negative.
---
 gb/hypergraph/sql.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 87c1873..96148f1 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -178,6 +178,13 @@ class SQL(Backend):
         cur.execute('DELETE FROM vertices WHERE id=%s' % (self.ph,), (vert_str,))
         self.close_cursor(cur, local=True, commit=True)
 
+    def replace_vertex(self, vertex, timestamp):
+        """Adds the given vertex, preserving its degree if it already exists."""
+        vert_str = ed.edge2str(vertex)
+        degree = self.degree(vertex)
+        self.remove_str(vert_str)
+        self.add_str(vert_str, degree, timestamp)
+
     def str2perms(self, center_id):
         """Query database for all the edge permutations that contain a given entity,
         represented as a string."""
@@ -232,7 +239,7 @@ class SQL(Backend):
                 vert_str = ed.edge2str(vert)
                 if not self.inc_degree(vert_str):
                     self.add_str(vert_str, 1, timestamp)
-            self.add_str(ed.edge2str(edge), 0, timestamp)
+            self.replace_vertex(edge, timestamp)
             self.write_edge_permutations(edge)
         return edge
 
@@ -254,7 +261,11 @@ class SQL(Backend):
             for vert in edge:
                 self.dec_degree(ed.edge2str(vert))
             self.remove_edge_permutations(edge)
-            self.remove_str(ed.edge2str(edge))
+            if self.degree(edge) > 0:
+                # still a vertex of other edges
+                self.replace_vertex(edge, -1)
+            else:
+                self.remove_str(ed.edge2str(edge))
 
     def remove(self, edges):
         """Removes one or multiple edges from the hypergraph
-- 
2.43.0


From a1c578899eb12c153da316467cd31cde4578b9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 08/25] fix: make every change to an SQL hypergraph atomic

Adding or removing a single edge was a sequence of independent commits, so that a
crash could leave an edge that only some queries find; an error inside a batch left
the hypergraph in a state where nothing was committed any more; adding multiple
edges inside batch_exec failed; and two SQLite connections adding the same edge
could both count it.
---
 gb/hypergraph/sql.py    | 54 +++++++++++++++++++++++++++--------------
 gb/hypergraph/sqlite.py |  5 ++++
 2 files changed, 41 insertions(+), 18 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 96148f1..e92cc46 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -131,6 +131,29 @@ class SQL(Backend):
             self.cur.close()
             self.cur = None
 
+    def begin_transaction(self):
+        """Explicitly begins a transaction, if the database needs it."""
+        pass
+
+    def transaction(self, f):
+        """Calls f inside a transaction. Either all of its changes are stored or, if it fails, none of them.
+        Transactions can be nested, only the outermost one is effective."""
+        if self.cur is not None:
+            return f()
+
+        self.begin_transaction()
+        try:
+            cur = self.open_cursor(local=False)
+            res = f()
+            self.conn.commit()
+        except BaseException:
+            self.conn.rollback()
+            raise
+        finally:
+            self.cur = None
+        cur.close()
+        return res
+
     def update_or_insert(self, table, row, vid):
         """Updates columns or inserts a new row in the vertices table"""
         cur = self.open_cursor()
@@ -163,10 +186,9 @@ class SQL(Backend):
 
     def remove_edge_permutation(self, perm):
         eid = ed.edge2str(perm)
-        cur = self.conn.cursor()
+        cur = self.open_cursor()
         cur.execute('DELETE FROM perms WHERE id=%s' % (self.ph,), (eid,))
-        self.conn.commit()
-        cur.close()
+        self.close_cursor(cur, local=True, commit=True)
 
     def remove_edge_permutations(self, edge):
         """Removes all permutations of the given edge."""
@@ -247,12 +269,9 @@ class SQL(Backend):
         """Adds one or multiple edges to the hypergraph if it does not exist yet.
         Adding multiple edges at the same time might be faster."""
         if isinstance(edges[0], (list, tuple)):
-            cur = self.open_cursor(local=False)
-            for edge in edges:
-                self.add_raw(edge, timestamp)
-            self.close_cursor(cur, local=False, commit=True)
+            self.transaction(lambda: [self.add_raw(edge, timestamp) for edge in edges])
         else:
-            self.add_raw(edges, timestamp)
+            self.transaction(lambda: self.add_raw(edges, timestamp))
         return edges
 
     def remove_raw(self, edge):
@@ -271,11 +290,9 @@ class SQL(Backend):
         """Removes one or multiple edges from the hypergraph
         Removing multiple edges at the same time might be faster."""
         if isinstance(edges[0], (list, tuple)):
-            # TODO: use transaction?
-            for edge in edges:
-                self.remove_raw(edge)
+            self.transaction(lambda: [self.remove_raw(edge) for edge in edges])
         else:
-            self.remove_raw(edges)
+            self.transaction(lambda: self.remove_raw(edges))
 
     def star(self, center):
         """Return all the edges that contain a given entity.
@@ -299,13 +316,17 @@ class SQL(Backend):
         self.close_cursor(cur, local=True, commit=False)
         return set(symbs)
 
-    def destroy(self):
-        """Erase the hypergraph."""
+    def destroy_raw(self):
+        """Auxiliary function for destroy to call from inside a transaction."""
         cur = self.open_cursor()
         cur.execute('DELETE FROM vertices')
         cur.execute('DELETE FROM perms')
         self.close_cursor(cur, local=True, commit=True)
 
+    def destroy(self):
+        """Erase the hypergraph."""
+        self.transaction(self.destroy_raw)
+
     def degree(self, vertex):
         """Returns the degree of a vertex."""
         vert_str = ed.edge2str(vertex)
@@ -332,10 +353,7 @@ class SQL(Backend):
 
     def batch_exec(self, funs):
         """Auxiliary function to implement ops.batch_exec in SQL environments."""
-        cur = self.open_cursor(local=False)
-        for f in funs:
-            f(self)
-        self.close_cursor(cur, local=False, commit=True)
+        self.transaction(lambda: [f(self) for f in funs])
 
     def f_all(self, f):
         """Returns a lazy sequence resulting from applying f to every
diff --git a/gb/hypergraph/sqlite.py b/gb/hypergraph/sqlite.py
index fd65ee1..d29d0a2 100644
--- a/gb/hypergraph/sqlite.py
+++ b/gb/hypergraph/sqlite.py
@@ -37,6 +37,11 @@ class SQLite(SQL):
         file_path = params['db']
         SQL.__init__(self, sqlite3.connect(file_path))
 
+    def begin_transaction(self):
+        """Takes the write lock from the start, so that what is read inside the transaction
+        can not be changed by other connections before its end."""
+        self.conn.execute('BEGIN IMMEDIATE')
+
     def create_tables(self):
         """Created the tables necessary to store the hypergraph."""
         cur = self.conn.cursor()
-- 
2.43.0


From 00ec133ad13885f20c9ffbe5aa5edfc86496624d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:25 +0000
Subject: [PATCH 09/25] fix: make remove_belief and remove_by_pattern atomic

A crash, or another connection, between their steps could leave a fact without
sources or remove a fact that still had one.
---
 gb/hypergraph/hypergraph.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/gb/hypergraph/hypergraph.py b/gb/hypergraph/hypergraph.py
index 92588c6..6c4d9bc 100644
--- a/gb/hypergraph/hypergraph.py
+++ b/gb/hypergraph/hypergraph.py
@@ -96,9 +96,12 @@ class HyperGraph(object):
 
     def remove_by_pattern(self, pattern):
         """Removes from the hypergraph all edges that match the pattern."""
-        edges = self.pattern2edges(pattern)
-        for edge in edges:
-            self.remove(edge)
+        def remove_edges(_):
+            edges = self.pattern2edges(pattern)
+            for edge in edges:
+                self.remove(edge)
+
+        self.batch_exec((remove_edges,))
 
     # TODO: this can be optimized
     def ego(self, center, depth):
@@ -136,6 +139,9 @@ class HyperGraph(object):
         """A belif is a fact with a source. The link from the source to the fact
            is removed. If no more sources support the fact, then the fact is also
            removed."""
-        self.remove((const.source, edge, source))
-        if len(self.sources(edge)) == 0:
-            self.remove(edge)
+        def remove_edges(_):
+            self.remove((const.source, edge, source))
+            if len(self.sources(edge)) == 0:
+                self.remove(edge)
+
+        self.batch_exec((remove_edges,))
-- 
2.43.0


From f3fbfd26a04a70084bc5c5967d49f9ac7e252845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:27 +0000
Subject: [PATCH 10/25] fix: ego returns the edges around a vertex

It always failed: it sliced the set of edges returned by star, and mixed vertices with
the results of recursive calls. Same behaviour as the original Clojure implementation.
---
 gb/hypergraph/hypergraph.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/gb/hypergraph/hypergraph.py b/gb/hypergraph/hypergraph.py
index 6c4d9bc..24de757 100644
--- a/gb/hypergraph/hypergraph.py
+++ b/gb/hypergraph/hypergraph.py
@@ -105,13 +105,15 @@ class HyperGraph(object):
 
     # TODO: this can be optimized
     def ego(self, center, depth):
+        """Set of the edges within a given distance of the center.
+        Connectors (the first element of each edge) are not followed."""
+        edges = set()
         if depth > 0:
             edges = self.star(center)
-            edges = edges[1:]
-            ids = [item for sublist in edges for item in sublist]
-            ids = set(ids)
-            next_edges = [self.ego(vid, depth - 1) for vid in ids]
-            return ids.union(next_edges)
+            ids = set([item for edge in edges for item in edge[1:]])
+            for vid in ids:
+                edges = edges.union(self.ego(vid, depth - 1))
+        return edges
 
     def add_belief(self, source, edges, timestamp=-1):
         """A belif is a fact with a source. The fact is created as a normal edge
-- 
2.43.0


From 7b0c355cc6c65b1a1c607d5512081b7d6ff3fd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 11/25] fix: intersect queries

They always failed: vemap was indexed with the id builtin, walks were added to a set
as lists, and seeds without edges were not expected.
---
 gb/hypergraph/queries.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/queries.py b/gb/hypergraph/queries.py
index de75daf..af78ab6 100644
--- a/gb/hypergraph/queries.py
+++ b/gb/hypergraph/queries.py
@@ -38,7 +38,7 @@ def vemap_assoc_id_edge(vemap, vid, edge):
     if vid not in vemap:
         vemap[vid] = {'edges': [], 'neighbours': set()}
     vemap[vid]['edges'].append(edge)
-    vemap[vid]['neighbours'] = add_neighbours(vemap[id]['neighbours'], edge)
+    vemap[vid]['neighbours'] = add_neighbours(vemap[vid]['neighbours'], edge)
     return vemap
 
 
@@ -74,8 +74,10 @@ def walks(vemap, nodes, walk, all_walks):
             valid = False
 
     if valid:
-        all_walks.add(walk)
+        all_walks.add(tuple(walk))
     else:
+        if walk[-1] not in vemap:
+            return
         neighbours = vemap[walk[-1]]['neighbours']
         next_steps = [node for node in neighbours if node not in walk]
         if len(next_steps) > 0:
-- 
2.43.0


From 352cc76568a20042d1158d88fb9543712c79c73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 12/25] fix: buffered additions keep their timestamps and their
 order

flush() failed on an empty buffer and replaced the timestamps given to add(); edges in
the buffer reappeared if they were removed, or the hypergraph erased, before the flush.
---
 gb/hypergraph/batch_hypergraph.py | 32 +++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/gb/hypergraph/batch_hypergraph.py b/gb/hypergraph/batch_hypergraph.py
index dd8b305..f03a312 100644
--- a/gb/hypergraph/batch_hypergraph.py
+++ b/gb/hypergraph/batch_hypergraph.py
@@ -33,18 +33,42 @@ class BatchHyperGraph(hypergraph.HyperGraph):
         self.buffer_max = buffer_max
 
     def flush(self, timestamp=-1):
-        self.backend.add(self.buffer, timestamp)
+        """Stores the edges in the buffer. The timestamp is for the ones that were added without one."""
+        if len(self.buffer) > 0:
+            self.backend.batch_exec([lambda backend: [backend.add((edge,), timestamp if ts == -1 else ts)
+                                                      for edge, ts in self.buffer]])
         self.buffer = []
 
     def add(self, edges, timestamp=-1):
         """Adds one or multiple edges to the hypergraph if it does not exist yet.
                 Adding multiple edges at the same time might be faster."""
         if isinstance(edges[0], (list, tuple)):
-            self.buffer += edges
+            self.buffer += [(edge, timestamp) for edge in edges]
         else:
-            self.buffer.append(edges)
+            self.buffer.append((edges, timestamp))
 
         if len(self.buffer) > self.buffer_max:
-            self.flush(timestamp)
+            self.flush()
 
         return edges
+
+    # edges in the buffer come before what these operations do
+
+    def remove(self, edges):
+        """Removes one or multiple edges from the hypergraph.
+           Removing multiple edges at the same time might be faster."""
+        self.flush()
+        hypergraph.HyperGraph.remove(self, edges)
+
+    def destroy(self):
+        """Erase the hypergraph."""
+        self.buffer = []
+        hypergraph.HyperGraph.destroy(self)
+
+    def batch_exec(self, funs):
+        """Evaluates all the functions 'funs', which must be of arity 1.
+        The functions are passed hg as a parameters and are evaluated
+        as a batch.
+        Evaluating function as a batch might be faster."""
+        self.flush()
+        hypergraph.HyperGraph.batch_exec(self, funs)
-- 
2.43.0


From 0bb3fd2ae0e223f37fd35b3252a12b5af6301acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 13/25] fix: parent of parsed tokens is a token

It was set to the parser.
---
 gb/nlp/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gb/nlp/parser.py b/gb/nlp/parser.py
index b506333..cce30e9 100644
--- a/gb/nlp/parser.py
+++ b/gb/nlp/parser.py
@@ -45,9 +45,9 @@ class Parser:
             token.left_children = [self.__spacy2token(t) for t in stoken.lefts]
             token.right_children = [self.__spacy2token(t) for t in stoken.rights]
             for t in token.left_children:
-                t.parent = self
+                t.parent = token
             for t in token.right_children:
-                t.parent = self
+                t.parent = token
             token.entity_type = stoken.ent_type_
             self.token_table[stoken] = token
 
-- 
2.43.0


From 4b9ec64e489cfe42e521bf5fe153517f71a9693c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 14/25] fix: command line parameters of the mysql backend

The backend takes host, user and password, so it always failed with a KeyError.
---
 gb/gbrain.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gb/gbrain.py b/gb/gbrain.py
index 9a9771f..a068fbc 100644
--- a/gb/gbrain.py
+++ b/gb/gbrain.py
@@ -36,8 +36,9 @@ def cli(ctx, backend, db, dbuser, dbpass):
     ctx.obj = {
         'backend': backend,
         'db': db,
-        'dbuser': dbuser,
-        'dbpass': dbpass
+        'host': 'localhost',
+        'user': dbuser,
+        'password': dbpass
     }
 
 
-- 
2.43.0


From e238adbf3e0d920bd1352238111a7a610f4db0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 15/25] fix: str2symbol replaces all white space

A string with tabs, line breaks or other spaces produced a symbol that was split
in two when read back.
---
 gb/hypergraph/symbol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gb/hypergraph/symbol.py b/gb/hypergraph/symbol.py
index 24df140..80c005e 100644
--- a/gb/hypergraph/symbol.py
+++ b/gb/hypergraph/symbol.py
@@ -110,7 +110,8 @@ def str2symbol(s):
     """Converts a string into a valid symbol"""
     sym = s.lower()
     sym = sym.replace("/", "_")
-    sym = sym.replace(" ", "_")
+    # any white space, edges are split on it
+    sym = ''.join('_' if c.isspace() else c for c in sym)
     sym = sym.replace("(", "_")
     sym = sym.replace(")", "_")
     return sym
-- 
2.43.0


From 79d2f4bd94a2f68c7cf7e1d61c2b9675cd3fd7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 16/25] fix: f_all inside a batch

It shared the cursor of the batch, so that any other operation stopped or corrupted
the iteration.
---
 gb/hypergraph/sql.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index e92cc46..a2c29fc 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -359,9 +359,10 @@ class SQL(Backend):
         """Returns a lazy sequence resulting from applying f to every
            vertex map (including non-atomic) in the hypergraph.
            A vertex map contains the keys vertex and degree."""
-        cur = self.open_cursor()
+        # own cursor, f can use the one of the current batch
+        cur = self.conn.cursor()
         cur.execute('SELECT id, degree FROM vertices')
         for row in cur:
             vmap = {'vertex': ed.str2edge(row[0]), 'degree': row[1]}
             yield f(vmap)
-        self.close_cursor(cur, local=True, commit=False)
+        cur.close()
-- 
2.43.0


From 080c02b3e6aca3499eaf7cb92d781a1097882659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:11 +0000
Subject: [PATCH 17/25] fix: remove_by_pattern of edges that start with an edge

---
 gb/hypergraph/hypergraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gb/hypergraph/hypergraph.py b/gb/hypergraph/hypergraph.py
index 24de757..7af5c70 100644
--- a/gb/hypergraph/hypergraph.py
+++ b/gb/hypergraph/hypergraph.py
@@ -99,7 +99,8 @@ class HyperGraph(object):
         def remove_edges(_):
             edges = self.pattern2edges(pattern)
             for edge in edges:
-                self.remove(edge)
+                # as a list, the first element of the edge can also be an edge
+                self.remove((edge,))
 
         self.batch_exec((remove_edges,))
 
-- 
2.43.0


From 1e12d460067cd1eaa92024f1caa515a9468c9d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:36 +0000
Subject: [PATCH 18/25] fix: remove_belief of edges that start with an edge

---
 gb/hypergraph/hypergraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gb/hypergraph/hypergraph.py b/gb/hypergraph/hypergraph.py
index 7af5c70..0d5645f 100644
--- a/gb/hypergraph/hypergraph.py
+++ b/gb/hypergraph/hypergraph.py
@@ -145,6 +145,7 @@ class HyperGraph(object):
         def remove_edges(_):
             self.remove((const.source, edge, source))
             if len(self.sources(edge)) == 0:
-                self.remove(edge)
+                # as a list, the first element of the edge can also be an edge
+                self.remove((edge,))
 
         self.batch_exec((remove_edges,))
-- 
2.43.0


From 179345c7570229ce42a374749a341d0405887cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:49 +0000
Subject: [PATCH 19/25] fix: exploring candidates in the delta stage does not
 mark entities as compounds

---
 gb/knowledge/stages/delta.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gb/knowledge/stages/delta.py b/gb/knowledge/stages/delta.py
index 1b31252..977a2e3 100644
--- a/gb/knowledge/stages/delta.py
+++ b/gb/knowledge/stages/delta.py
@@ -154,7 +154,9 @@ class DeltaStage(object):
                             rel_right_a = rel_right.children_ids[0]
                             rel_right_b = rel_right.children_ids[1:]
 
-                        center_rel_node = self.tree.create_node([rel_left_b, rel_right_a])
+                        # clones, not to change the relationships of the other candidates
+                        center_rel_node = self.tree.create_node([self.tree.clone_id(rel_left_b),
+                                                                 self.tree.clone_id(rel_right_a)])
                         center_rel_node.compound = True
 
                         rel_ids = rel_left_a + [center_rel_node.id] + rel_right_b
-- 
2.43.0


From 3b329a637d8eea605a307fcb359801d984434fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:34 +0000
Subject: [PATCH 20/25] fix: clones of semantic trees do not share leaves with
 the original

---
 gb/knowledge/semantic_tree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gb/knowledge/semantic_tree.py b/gb/knowledge/semantic_tree.py
index 05f9d53..0c1b0a4 100644
--- a/gb/knowledge/semantic_tree.py
+++ b/gb/knowledge/semantic_tree.py
@@ -165,9 +165,10 @@ class Leaf(Element):
         self.type = LEAF
         self.token = token
 
-    # Leaf is immutable
     def clone(self):
-        return self
+        new_leaf = self.tree.create_leaf(self.token)
+        new_leaf.namespace = self.namespace
+        return new_leaf
 
     # override
     def add_child(self, elem_id):
@@ -226,6 +227,7 @@ class Node(Element):
     def clone(self):
         new_node = self.tree.create_node([self.tree.clone_id(child_id) for child_id in self.children_ids])
         new_node.__compound = self.__compound
+        new_node.namespace = self.namespace
         return new_node
 
     def get_child(self, i):
-- 
2.43.0


From f674c35db7da203807b866cd3f52e729ed21b830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 21/25] fix: opening an SQLite hypergraph ignored storage
 errors

---
 gb/hypergraph/sqlite.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/sqlite.py b/gb/hypergraph/sqlite.py
index d29d0a2..853bb8b 100644
--- a/gb/hypergraph/sqlite.py
+++ b/gb/hypergraph/sqlite.py
@@ -26,8 +26,10 @@ from gb.hypergraph.sql import SQL
 def exec_or_ignore(cur, query):
     try:
         cur.execute(query)
-    except sqlite3.OperationalError:
-        pass
+    except sqlite3.OperationalError as e:
+        # only what is already there can be ignored
+        if 'already exists' not in str(e) and 'duplicate column name' not in str(e):
+            raise
 
 
 class SQLite(SQL):
-- 
2.43.0


From a499792c7804f1c5296b479c581f283b4151dc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:08 +0000
Subject: [PATCH 22/25] fix: a buffered edge given as a list could be changed
 by the caller before being stored

---
 gb/hypergraph/batch_hypergraph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/batch_hypergraph.py b/gb/hypergraph/batch_hypergraph.py
index f03a312..3ba68f5 100644
--- a/gb/hypergraph/batch_hypergraph.py
+++ b/gb/hypergraph/batch_hypergraph.py
@@ -19,6 +19,7 @@
 #   along with GraphBrain.  If not, see <http://www.gnu.org/licenses/>.
 
 
+import copy
 import gb.hypergraph.hypergraph as hypergraph
 
 
@@ -43,9 +44,9 @@ class BatchHyperGraph(hypergraph.HyperGraph):
         """Adds one or multiple edges to the hypergraph if it does not exist yet.
                 Adding multiple edges at the same time might be faster."""
         if isinstance(edges[0], (list, tuple)):
-            self.buffer += [(edge, timestamp) for edge in edges]
+            self.buffer += [(copy.deepcopy(edge), timestamp) for edge in edges]
         else:
-            self.buffer.append((edges, timestamp))
+            self.buffer.append((copy.deepcopy(edges), timestamp))
 
         if len(self.buffer) > self.buffer_max:
             self.flush()
-- 
2.43.0


From 4fe34dc81f807e241c838c61d1b2ddbdc5f28ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:11 +0000
Subject: [PATCH 23/25] fix: an operation that fails inside a batch undoes its
 own changes

---
 gb/hypergraph/sql.py    | 14 +++++++++++---
 gb/hypergraph/sqlite.py | 24 ++++++++++++++++++++++++
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index a2c29fc..511d818 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -135,17 +135,25 @@ class SQL(Backend):
         """Explicitly begins a transaction, if the database needs it."""
         pass
 
+    def end_transaction(self):
+        """Stores the changes of a transaction."""
+        self.conn.commit()
+
+    def nested(self, f):
+        """Calls f inside a transaction that is already open."""
+        return f()
+
     def transaction(self, f):
         """Calls f inside a transaction. Either all of its changes are stored or, if it fails, none of them.
-        Transactions can be nested, only the outermost one is effective."""
+        Transactions can be nested, what is not undone is stored at the end of the outermost one."""
         if self.cur is not None:
-            return f()
+            return self.nested(f)
 
         self.begin_transaction()
         try:
             cur = self.open_cursor(local=False)
             res = f()
-            self.conn.commit()
+            self.end_transaction()
         except BaseException:
             self.conn.rollback()
             raise
diff --git a/gb/hypergraph/sqlite.py b/gb/hypergraph/sqlite.py
index 853bb8b..585250f 100644
--- a/gb/hypergraph/sqlite.py
+++ b/gb/hypergraph/sqlite.py
@@ -44,6 +44,30 @@ class SQLite(SQL):
         can not be changed by other connections before its end."""
         self.conn.execute('BEGIN IMMEDIATE')
 
+    def check_transaction(self):
+        """Some errors (e.g. a full disk) end the whole transaction, even if somebody catches them."""
+        if not self.conn.in_transaction:
+            raise sqlite3.OperationalError('the transaction was rolled back by the database')
+
+    def end_transaction(self):
+        self.check_transaction()
+        self.conn.commit()
+
+    def nested(self, f):
+        """Calls f inside a transaction that is already open. If it fails, its own changes are undone,
+        the function that called it can catch the error and go on."""
+        self.check_transaction()
+        self.cur.execute('SAVEPOINT nested')
+        try:
+            res = f()
+            self.cur.execute('RELEASE SAVEPOINT nested')
+        except BaseException:
+            if self.conn.in_transaction:
+                self.cur.execute('ROLLBACK TO SAVEPOINT nested')
+                self.cur.execute('RELEASE SAVEPOINT nested')
+            raise
+        return res
+
     def create_tables(self):
         """Created the tables necessary to store the hypergraph."""
         cur = self.conn.cursor()
-- 
2.43.0


From 075c5c45b93ebcdd77a175fdcd7f94f9a75f0537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:58 +0000
Subject: [PATCH 24/25] fix: draw all the tokens of a sentence

Tokens that only differ in their place in the sentence (for example two commas) had the same label and shared one key of a
dictionary, so all but one of them, and what was under the others, were not drawn. A sentence without root failed.
---
 gb/nlp/sentence.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/gb/nlp/sentence.py b/gb/nlp/sentence.py
index 0c4a1ee..c445dab 100644
--- a/gb/nlp/sentence.py
+++ b/gb/nlp/sentence.py
@@ -20,7 +20,7 @@
 
 
 from asciitree import LeftAligned
-from collections import OrderedDict
+from asciitree.traversal import Traversal
 
 
 def node_label(token, prefix):
@@ -31,7 +31,18 @@ def token2label_tree(token, prefix='*'):
     children = [token2label_tree(leaf, 'L') for leaf in token.left_children] +\
                [token2label_tree(leaf, 'R') for leaf in token.right_children]
 
-    return node_label(token, prefix), OrderedDict(children)
+    return node_label(token, prefix), children
+
+
+class LabelTreeTraversal(Traversal):
+    """Traversal of trees made of pairs (label, children). Different from
+    dictionaries, children can have the same label."""
+
+    def get_children(self, node):
+        return node[1]
+
+    def get_text(self, node):
+        return node[0]
 
 
 class Sentence:
@@ -47,13 +58,15 @@ class Sentence:
     def label_tree(self):
         r = self.root()
         if r is None:
-            return {}
-        label, children = token2label_tree(r)
-        return {label: children}
+            return None
+        return token2label_tree(r)
 
     def print_tree(self):
-        tr = LeftAligned()
-        print(tr(self.label_tree()))
+        tree = self.label_tree()
+        if tree is None:
+            return
+        tr = LeftAligned(traverse=LabelTreeTraversal())
+        print(tr(tree))
 
     def __str__(self):
         return ' '.join([token.word.strip() for token in self.tokens])
-- 
2.43.0


From f8618e9a157bf31d8ea5e48b79b58139057fc2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:27 +0000
Subject: [PATCH 25/25] fix: f_all visited vertices again and kept other
 connections waiting

Rows were read while the function was being applied: a change made in the
meantime could make a vertex be visited twice, or for ever, and until the end
of the enumeration no other connection to the same SQLite database could
change it.
---
 gb/hypergraph/sql.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 511d818..98eadbc 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -370,7 +370,10 @@ class SQL(Backend):
         # own cursor, f can use the one of the current batch
         cur = self.conn.cursor()
         cur.execute('SELECT id, degree FROM vertices')
-        for row in cur:
+        # all at once, so that other connections do not have to wait for the end of the visits,
+        # and what changes in the meantime is not visited
+        rows = cur.fetchall()
+        cur.close()
+        for row in rows:
             vmap = {'vertex': ed.str2edge(row[0]), 'degree': row[1]}
             yield f(vmap)
-        cur.close()
-- 
2.43.0

