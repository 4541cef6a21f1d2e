From b7533efb09a4703f6629308706f7e7229a96b073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 01/69] fix: keep the current value where nested conditions of
 an assignment do not hold

---
 pyverilog/dataflow/bindvisitor.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index cb73857..060a100 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1501,10 +1501,8 @@ class BindVisitor(NodeVisitor):
              rest_flowlist,
              match_flowlist) = self.diffBranchTree(current_tree, condlist, flowlist)
 
-        add_tree = self.makeBranchTree(rest_condlist, rest_flowlist, raw_tree)
-        if rest_flowlist and rest_tree is not None:
-            _rest_flowlist = rest_flowlist[:-1] + (not rest_flowlist[-1], )
-            add_tree = self.appendBranchTree(add_tree, _rest_flowlist, rest_tree)
+        # where the remaining conditions do not hold, the current value is kept
+        add_tree = self.makeBranchTree(rest_condlist, rest_flowlist, raw_tree, rest_tree)
 
         tree = reorder.reorder(
             self.appendBranchTree(current_tree, match_flowlist, add_tree))
@@ -1531,25 +1529,25 @@ class BindVisitor(NodeVisitor):
                 tree.falsenode, condlist[1:], flowlist[1:],
                 matchflowlist + (flowlist[0],))
 
-    def makeBranchTree(self, condlist, flowlist, node):
+    def makeBranchTree(self, condlist, flowlist, node, rest=None):
         if len(condlist) == 0 or len(flowlist) == 0:
             return node
         if len(condlist) == 1:
             if flowlist[0]:
-                return DFBranch(condlist[0], node, None)
+                return DFBranch(condlist[0], node, rest)
             else:
-                return DFBranch(condlist[0], None, node)
+                return DFBranch(condlist[0], rest, node)
         else:
             if flowlist[0]:
                 return DFBranch(
                     condlist[0],
-                    self.makeBranchTree(condlist[1:], flowlist[1:], node),
-                    None)
+                    self.makeBranchTree(condlist[1:], flowlist[1:], node, rest),
+                    rest)
             else:
                 return DFBranch(
                     condlist[0],
-                    None,
-                    self.makeBranchTree(condlist[1:], flowlist[1:], node))
+                    rest,
+                    self.makeBranchTree(condlist[1:], flowlist[1:], node, rest))
 
     def appendBranchTree(self, base, pos, tree):
         if len(pos) == 0:
-- 
2.43.0


From 12dbe1d221ac709a09111657dd2b1cb1567b2a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 02/69] fix: cut only the assigned value, once, for
 concatenated assignment targets

---
 pyverilog/dataflow/bindvisitor.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 060a100..943ee60 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1462,7 +1462,7 @@ class BindVisitor(NodeVisitor):
             renamed_term = DFTerminal(renamed_dst[term_i][0])
             renamed_bind = self.makeBind(name, msb, lsb, ptr, part_msb, part_lsb,
                                          renamed_term, condlist, flowlist,
-                                         num_dst=len(dst), alwaysinfo=alwaysinfo)
+                                         alwaysinfo=alwaysinfo)
             self.dataflow.addBind(name, renamed_bind)
             self.frames.setBlockingAssign(name, renamed_bind, scope)
             term_i += 1
@@ -1471,6 +1471,10 @@ class BindVisitor(NodeVisitor):
                  raw_tree, condlist, flowlist,
                  num_dst=1, alwaysinfo=None, bindtype=None):
 
+        if num_dst > 1:
+            raw_tree = reorder.reorder(
+                DFPartselect(raw_tree, part_msb, part_lsb))
+
         current_bindlist = self.getBindlist(name)
         current_tree = None
         current_msb = None
@@ -1507,10 +1511,6 @@ class BindVisitor(NodeVisitor):
         tree = reorder.reorder(
             self.appendBranchTree(current_tree, match_flowlist, add_tree))
 
-        if num_dst > 1:
-            tree = reorder.reorder(
-                DFPartselect(tree, part_msb, part_lsb))
-
         return Bind(tree, name, msb, lsb, ptr, alwaysinfo, bindtype)
 
     def diffBranchTree(self, tree, condlist, flowlist, matchflowlist=()):
-- 
2.43.0


From c2d950bc6ab9dd709640ab447c12a6961d9307d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 03/69] fix: compare the lsb of partial assignments kept in a
 frame

---
 pyverilog/dataflow/visit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/visit.py b/pyverilog/dataflow/visit.py
index da67da3..d63e763 100644
--- a/pyverilog/dataflow/visit.py
+++ b/pyverilog/dataflow/visit.py
@@ -492,7 +492,7 @@ class Frame(object):
             return
         current = self.blockingassign[dst]
         for c_i, c in enumerate(current):
-            if c.msb == bind.msb and c.msb == bind.msb and c.ptr == bind.ptr:
+            if c.msb == bind.msb and c.lsb == bind.lsb and c.ptr == bind.ptr:
                 self.blockingassign[dst][c_i].tree = bind.tree
                 return
         self.blockingassign[dst] = current + (bind,)
@@ -511,7 +511,7 @@ class Frame(object):
             return
         current = self.nonblockingassign[dst]
         for c_i, c in enumerate(current):
-            if c.msb == bind.msb and c.msb == bind.msb and c.ptr == bind.ptr:
+            if c.msb == bind.msb and c.lsb == bind.lsb and c.ptr == bind.ptr:
                 self.nonblockingassign[dst][c_i].tree = copy.deepcopy(bind.tree)
                 return
         self.nonblockingassign[dst] = current + (copy.deepcopy(bind),)
-- 
2.43.0


From 991caca38373103c277da550b83e2c172a64aab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:10 +0000
Subject: [PATCH 04/69] fix: a conditional expression whose condition is
 conditional no longer fails

---
 pyverilog/dataflow/bindvisitor.py   | 2 +-
 pyverilog/dataflow/signalvisitor.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 943ee60..9ba4234 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1028,7 +1028,7 @@ class BindVisitor(NodeVisitor):
             false_df = self.makeDFTree(node.false_value, scope)
             cond_df = self.makeDFTree(node.cond, scope)
             if isinstance(cond_df, DFBranch):
-                return reorder.insertCond(cond_df, true_df, false_df)
+                return reorder.insertBranch(cond_df, true_df, false_df)
             return DFBranch(cond_df, true_df, false_df)
 
         if isinstance(node, UnaryOperator):
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index e2d5251..98e0416 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -500,7 +500,7 @@ class SignalVisitor(NodeVisitor):
             false_df = self.makeDFTree(node.false_value, scope)
             cond_df = self.makeDFTree(node.cond, scope)
             if isinstance(cond_df, DFBranch):
-                return reorder.insertCond(cond_df, true_df, false_df)
+                return reorder.insertBranch(cond_df, true_df, false_df)
             return DFBranch(cond_df, true_df, false_df)
 
         if isinstance(node, UnaryOperator):
-- 
2.43.0


From 27da04fbb790791bfc76c724979a29c6a48227a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 05/69] fix: a frame keeps its own copy of a blocking
 assignment

---
 pyverilog/dataflow/visit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/visit.py b/pyverilog/dataflow/visit.py
index d63e763..1df7165 100644
--- a/pyverilog/dataflow/visit.py
+++ b/pyverilog/dataflow/visit.py
@@ -488,14 +488,14 @@ class Frame(object):
 
     def setBlockingAssign(self, dst, bind):
         if not dst in self.blockingassign:
-            self.blockingassign[dst] = (bind,)
+            self.blockingassign[dst] = (copy.copy(bind),)
             return
         current = self.blockingassign[dst]
         for c_i, c in enumerate(current):
             if c.msb == bind.msb and c.lsb == bind.lsb and c.ptr == bind.ptr:
                 self.blockingassign[dst][c_i].tree = bind.tree
                 return
-        self.blockingassign[dst] = current + (bind,)
+        self.blockingassign[dst] = current + (copy.copy(bind),)
 
     def getBlockingAssign(self, dst):
         if dst in self.blockingassign:
-- 
2.43.0


From bc9f311ff81108b855ba3b53a98e57bf0c7bcc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:04 +0000
Subject: [PATCH 06/69] fix: do not copy a large current value for every nested
 condition

---
 pyverilog/dataflow/bindvisitor.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 9ba4234..7675406 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1506,6 +1506,8 @@ class BindVisitor(NodeVisitor):
              match_flowlist) = self.diffBranchTree(current_tree, condlist, flowlist)
 
         # where the remaining conditions do not hold, the current value is kept
+        if len(rest_condlist) > 1 and isinstance(rest_tree, DFBranch):
+            rest_condlist, rest_flowlist = (self.joinConditions(rest_condlist, rest_flowlist),), (True,)
         add_tree = self.makeBranchTree(rest_condlist, rest_flowlist, raw_tree, rest_tree)
 
         tree = reorder.reorder(
@@ -1529,6 +1531,13 @@ class BindVisitor(NodeVisitor):
                 tree.falsenode, condlist[1:], flowlist[1:],
                 matchflowlist + (flowlist[0],))
 
+    def joinConditions(self, condlist, flowlist):
+        # a single condition, so that only one copy of the current value is needed
+        cond = condlist[0] if flowlist[0] else DFOperator((condlist[0],), 'Ulnot')
+        if len(condlist) == 1:
+            return cond
+        return DFOperator((cond, self.joinConditions(condlist[1:], flowlist[1:])), 'Land')
+
     def makeBranchTree(self, condlist, flowlist, node, rest=None):
         if len(condlist) == 0 or len(flowlist) == 0:
             return node
-- 
2.43.0


From 785fffe9833c9a7495fcfa9426ce282b5c3eef69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:42 +0000
Subject: [PATCH 07/69] fix: a whole signal in a concatenated target is the
 same slice as the whole signal

---
 pyverilog/dataflow/bindvisitor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 7675406..8e3edd3 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1310,9 +1310,10 @@ class BindVisitor(NodeVisitor):
                 ret.append((name, msb, lsb, ptr, None, None))
                 continue
 
+            width_msb, width_lsb = msb, lsb
             if msb is None and lsb is None:
-                msb, lsb = self.getTermWidth(name)
-            diff = reorder.reorder(DFOperator((msb, lsb), 'Minus'))
+                width_msb, width_lsb = self.getTermWidth(name)
+            diff = reorder.reorder(DFOperator((width_msb, width_lsb), 'Minus'))
             part_lsb = part_offset
             part_msb = reorder.reorder(DFOperator((part_offset, diff), 'Plus'))
             part_offset = reorder.reorder(
-- 
2.43.0


From 21c19ef709205dbba31b4f273dbc5ce3371e55c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 08/69] fix: entering an if block does not assign the earlier
 nonblocking value again

---
 pyverilog/dataflow/bindvisitor.py | 26 --------------------------
 1 file changed, 26 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 8e3edd3..21b8b4f 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -333,8 +333,6 @@ class BindVisitor(NodeVisitor):
                                       always=self.frames.isAlways(),
                                       initial=self.frames.isInitial())
 
-        self.copyPreviousNonblockingAssign(current + ScopeLabel(label, 'if'))
-
         if node.true_statement is not None:
             self.visit(node.true_statement)
         self.frames.setCurrent(current)
@@ -353,8 +351,6 @@ class BindVisitor(NodeVisitor):
                                       always=self.frames.isAlways(),
                                       initial=self.frames.isInitial())
 
-        self.copyPreviousNonblockingAssign(current + ScopeLabel(label, 'if'))
-
         if node.false_statement is not None:
             self.visit(node.false_statement)
         self.frames.setCurrent(current)
@@ -399,8 +395,6 @@ class BindVisitor(NodeVisitor):
                                       always=self.frames.isAlways(),
                                       initial=self.frames.isInitial())
 
-        self.copyPreviousNonblockingAssign(current + ScopeLabel(label, 'if'))
-
         myframes.append(self.frames.getCurrent())
 
         if case.statement is not None:
@@ -420,8 +414,6 @@ class BindVisitor(NodeVisitor):
                                       always=self.frames.isAlways(),
                                       initial=self.frames.isInitial())
 
-        self.copyPreviousNonblockingAssign(current + ScopeLabel(label, 'if'))
-
         myframes.append(current + ScopeLabel(label, 'if'))
 
         self._case(comp, caselist[1:], myframes)
@@ -647,24 +639,6 @@ class BindVisitor(NodeVisitor):
             self.dataflow.addTask(name, definition.getDefinition())
             self.dataflow.addTaskPorts(name, definition.getIOPorts())
 
-    def copyPreviousNonblockingAssign(self, scope):
-        assign = self.frames.getPreviousNonblockingAssign()
-        for name, bindlist in assign.items():
-            for bind in bindlist:
-                self.frames.addNonblockingAssign(name, bind)
-                msb = bind.msb
-                lsb = bind.lsb
-                ptr = bind.ptr
-                part_msb = None
-                part_lsb = None
-                condlist, flowlist = self.getCondflow(scope)
-                alwaysinfo = bind.alwaysinfo
-                raw_tree = bind.tree
-                new_bind = self.makeBind(name, msb, lsb, ptr, part_msb, part_lsb,
-                                         raw_tree, condlist, flowlist,
-                                         alwaysinfo=alwaysinfo)
-                self.dataflow.addBind(name, new_bind)
-
     def copyBlockingAssigns(self, scope_copy_from, scope_copy_to):
         assign = self.frames.getBlockingAssignsScope(scope_copy_from)
         for name, bindlist in assign.items():
-- 
2.43.0


From d644cc8765c63c67e645b35571a8c079e2c77f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:35 +0000
Subject: [PATCH 09/69] fix: compare and hash the operand of a delay

---
 pyverilog/dataflow/dataflow.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/dataflow.py b/pyverilog/dataflow/dataflow.py
index da85be2..1aff55d 100644
--- a/pyverilog/dataflow/dataflow.py
+++ b/pyverilog/dataflow/dataflow.py
@@ -636,10 +636,10 @@ class DFDelay(DFNotTerminal):
     def __eq__(self, other):
         if type(self) != type(other):
             return False
-        return self.nextnodes == other.nextnodes
+        return self.nextnode == other.nextnode
 
     def __hash__(self):
-        return hash(tuple(self.nextnodes))
+        return hash(self.nextnode)
 
 
 class DFSyscall(DFNotTerminal):
-- 
2.43.0


From 35b6bde83f73142ad0d3d549c84130ea4ef27a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:58 +0000
Subject: [PATCH 10/69] fix: nodes with different numbers or places of children
 are not equal

---
 pyverilog/vparser/ast.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyverilog/vparser/ast.py b/pyverilog/vparser/ast.py
index df288ed..c74b5b9 100644
--- a/pyverilog/vparser/ast.py
+++ b/pyverilog/vparser/ast.py
@@ -62,13 +62,15 @@ class Node(object):
         if self_attrs != other_attrs:
             return False
 
-        other_children = other.children()
+        if self.children() != other.children():
+            return False
 
-        for i, c in enumerate(self.children()):
-            if c != other_children[i]:
-                return False
+        # the same children in other places (e.g. then and else) are different
+        return self._absent() == other._absent()
 
-        return True
+    def _absent(self):
+        return [a for a in sorted(vars(self))
+                if a not in ('lineno', 'end_lineno') and not getattr(self, a)]
 
     def __ne__(self, other):
         return not self.__eq__(other)
-- 
2.43.0


From 9fb550f1dfc384acc40ece8bb48477953bedc903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:58 +0000
Subject: [PATCH 11/69] fix: the dimensions of a port are among its children

---
 pyverilog/vparser/ast.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyverilog/vparser/ast.py b/pyverilog/vparser/ast.py
index c74b5b9..bcb5b99 100644
--- a/pyverilog/vparser/ast.py
+++ b/pyverilog/vparser/ast.py
@@ -175,6 +175,8 @@ class Port(Node):
         nodelist = []
         if self.width:
             nodelist.append(self.width)
+        if self.dimensions:
+            nodelist.append(self.dimensions)
         return tuple(nodelist)
 
 
-- 
2.43.0


From 6f7e9780d862b665605ec7ca7282983b71ad6778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:36 +0000
Subject: [PATCH 12/69] fix: embedded code keeps its line number

---
 pyverilog/vparser/ast.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyverilog/vparser/ast.py b/pyverilog/vparser/ast.py
index bcb5b99..29bacac 100644
--- a/pyverilog/vparser/ast.py
+++ b/pyverilog/vparser/ast.py
@@ -1289,6 +1289,7 @@ class EmbeddedCode(Node):
     attr_names = ('code',)
 
     def __init__(self, code, lineno=0):
+        self.lineno = lineno
         self.code = code
 
     def children(self):
-- 
2.43.0


From d78b67cd39837b15b6eb85d24e1cc0d3e97133b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:00 +0000
Subject: [PATCH 13/69] fix: fold integer division, remainder, power and shifts
 like Verilog does

---
 pyverilog/dataflow/optimizer.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index b348416..b8da735 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -179,6 +179,8 @@ class VerilogOptimizer(object):
             if n.width > width:
                 width = n.width
         rslt = self._evalOperator(operator, tuple(valuelist), width)
+        if rslt is None:
+            return None
         return DFEvalValue(rslt, width)
 
     def _evalOperator(self, operator, valuelist, width=default_width):
@@ -227,23 +229,36 @@ class VerilogOptimizer(object):
                     rslt = 1 if rslt == 0 else 0
             return rslt
         if operator == 'Power':
+            if valuelist[1] < 0:
+                return None
             return valuelist[0] ** valuelist[1]
         if operator == 'Times':
             return valuelist[0] * valuelist[1]
         if operator == 'Divide':
-            value = valuelist[0] / valuelist[1]
+            if valuelist[1] == 0:
+                return None
             if isinstance(valuelist[0], int) and isinstance(valuelist[1], int):
-                return int(value)
-            return value
+                # the quotient is truncated toward zero
+                value = abs(valuelist[0]) // abs(valuelist[1])
+                return value if (valuelist[0] < 0) == (valuelist[1] < 0) else -value
+            return valuelist[0] / valuelist[1]
         if operator == 'Mod':
-            return valuelist[0] % valuelist[1]
+            if valuelist[1] == 0:
+                return None
+            # the remainder has the sign of the first operand
+            value = abs(valuelist[0]) % abs(valuelist[1])
+            return -value if valuelist[0] < 0 else value
         if operator == 'Plus':
             return valuelist[0] + valuelist[1]
         if operator == 'Minus':
             return valuelist[0] - valuelist[1]
-        if operator == 'Sll':
+        if operator in ('Sll', 'Sla', 'Srl', 'Sra') and valuelist[1] < 0:
+            return None
+        if operator == 'Sll' or operator == 'Sla':
             return valuelist[0] << valuelist[1]
         if operator == 'Srl':
+            if valuelist[0] < 0:
+                return (valuelist[0] & ((1 << width) - 1)) >> valuelist[1]
             return valuelist[0] >> valuelist[1]
         if operator == 'Sra':
             return valuelist[0] >> valuelist[1]
-- 
2.43.0


From a1a872af125375947115b29ebbe465a6011e0fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:00 +0000
Subject: [PATCH 14/69] fix: negative and too large values of folded
 concatenations, part selects and xnor

---
 pyverilog/dataflow/optimizer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index b8da735..30e924f 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -135,7 +135,7 @@ class VerilogOptimizer(object):
             var = self.optimizeConstant(tree.var)
             msb = self.optimizeConstant(tree.msb)
             lsb = self.optimizeConstant(tree.lsb)
-            if isinstance(var, DFEvalValue) and isinstance(msb, DFEvalValue) and isinstance(msb, DFEvalValue):
+            if isinstance(var, DFEvalValue) and isinstance(msb, DFEvalValue) and isinstance(lsb, DFEvalValue):
                 evalcc = self.evalPartselect(var, msb, lsb)
                 return evalcc
             return DFPartselect(var, msb, lsb)
@@ -284,7 +284,7 @@ class VerilogOptimizer(object):
         if operator == 'Xor':
             return valuelist[0] ^ valuelist[1]
         if operator == 'Xnor':
-            return ~(valuelist[0] ^ valuelist[1])
+            return ~(valuelist[0] ^ valuelist[1]) & ((1 << width) - 1)
         if operator == 'Or':
             return valuelist[0] | valuelist[1]
         if operator == 'Land':
@@ -367,7 +367,7 @@ class VerilogOptimizer(object):
         for node in nextnodes:
             width = self.getWidth(node)
             sum_width += width
-            concatval = (concatval << width) | node.value
+            concatval = (concatval << width) | (node.value & ((1 << width) - 1))
         return DFEvalValue(concatval, sum_width)
 
     def isCondTrue(self, cond):
@@ -379,9 +379,9 @@ class VerilogOptimizer(object):
 
     def evalPartselect(self, var, msb, lsb):
         width = msb.value - lsb.value + 1
-        partval = var.value >> lsb.value
-        if partval >= 2 ** width:
-            partval = partval % (2 ** width)
+        if width <= 0 or lsb.value < 0:
+            return DFPartselect(var, msb, lsb)
+        partval = (var.value >> lsb.value) & ((1 << width) - 1)
         return DFEvalValue(partval, width)
 
     def evalPointer(self, var, ptr):
-- 
2.43.0


From 68a88ebcaa21e71f36d5b5136fb15b5975c2088e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:00 +0000
Subject: [PATCH 15/69] fix: fold a bit select of a constant

---
 pyverilog/dataflow/optimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 30e924f..ade4eab 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -385,7 +385,9 @@ class VerilogOptimizer(object):
         return DFEvalValue(partval, width)
 
     def evalPointer(self, var, ptr):
-        ptrval = (var >> ptr) & 0x1
+        if ptr.value < 0:
+            return DFPointer(var, ptr)
+        ptrval = (var.value >> ptr.value) & 0x1
         return DFEvalValue(ptrval, 1)
 
     def optimizeHierarchy(self, tree):
-- 
2.43.0


From 399f80500ad563a7dfa01deeefa85253db05319b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:00 +0000
Subject: [PATCH 16/69] fix: comparisons, logical and reduction operators are
 one bit wide

---
 pyverilog/dataflow/optimizer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index ade4eab..4674f40 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -19,7 +19,8 @@ from pyverilog.dataflow.dataflow import *
 
 class VerilogOptimizer(object):
     default_width = 32
-    compare_ops = ('LessThan', 'GreaterThan', 'LassEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql')
+    compare_ops = ('LessThan', 'GreaterThan', 'LessEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql')
+    onebit_ops = compare_ops + ('Land', 'Lor', 'Ulnot', 'Uand', 'Unand', 'Uor', 'Unor', 'Uxor', 'Uxnor')
 
     def __init__(self, terms, constlist=None, default_width=32, level=2):
         self.terms = terms
@@ -181,6 +182,8 @@ class VerilogOptimizer(object):
         rslt = self._evalOperator(operator, tuple(valuelist), width)
         if rslt is None:
             return None
+        if operator in self.onebit_ops:
+            width = 1
         return DFEvalValue(rslt, width)
 
     def _evalOperator(self, operator, valuelist, width=default_width):
@@ -330,9 +333,7 @@ class VerilogOptimizer(object):
             width = abs(msb - lsb) + 1
             return width
         if isinstance(node, DFOperator):
-            if node.operator in self.compare_ops:
-                return 1
-            if node.operator == 'Land' or node.operator == 'Lor':
+            if node.operator in self.onebit_ops:
                 return 1
             maxwidth = 0
             for n in node.nextnodes:
-- 
2.43.0


From 06e24694c50d2739aa6a53f8b3bbcc33173a01ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:00 +0000
Subject: [PATCH 17/69] fix: do not fold operators on strings

---
 pyverilog/dataflow/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 4674f40..a74f1df 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -174,7 +174,7 @@ class VerilogOptimizer(object):
         valuelist = []
         width = 0
         for n in nextnodes:
-            if not isinstance(n, DFEvalValue):
+            if not isinstance(n, DFEvalValue) or n.isstring:
                 return None
             valuelist.append(n.value)
             if n.width > width:
-- 
2.43.0


From 2b1515da54e1bf2939e4dd1b19351b6e8b053094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:00 +0000
Subject: [PATCH 18/69] fix: raise the intended errors instead of NameError

---
 pyverilog/dataflow/optimizer.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index a74f1df..13ac754 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -82,7 +82,7 @@ class VerilogOptimizer(object):
         if isinstance(tree, DFHighImpedance):
             return tree
         if isinstance(tree, DFDelay):
-            raise FormatError('Can not evaluate and optimize a DFDelay')
+            raise verror.FormatError('Can not evaluate and optimize a DFDelay')
             # return tree
 
         if isinstance(tree, DFIntConst):
@@ -97,9 +97,9 @@ class VerilogOptimizer(object):
             return DFEvalValue(tree.eval(), None, isstring=True)
         if isinstance(tree, DFConstant):
             if 'x' in tree.value or 'z' in tree.value:
-                return DFUndefined()
+                return DFUndefined(self.default_width)
             if 'X' in tree.value or 'Z' in tree.value:
-                return DFUndefined()
+                return DFUndefined(self.default_width)
             return DFEvalValue(tree.eval(), self.default_width)
 
         if isinstance(tree, DFOperator):
@@ -357,10 +357,10 @@ class VerilogOptimizer(object):
                 width = abs(msb - lsb) + 1
                 return width
             return 1
-        if isinstance(tree, DFSyscall):
+        if isinstance(node, DFSyscall):
             return self.default_width
 
-        raise FormatError('Illegal Pointer in getWidth()')
+        raise verror.FormatError('Illegal Pointer in getWidth()')
 
     def evalConcat(self, nextnodes):
         concatval = 0
@@ -373,7 +373,7 @@ class VerilogOptimizer(object):
 
     def isCondTrue(self, cond):
         if not isinstance(cond, DFEvalValue):
-            raise FormatError('Can not evaluate the branch condition.')
+            raise verror.FormatError('Can not evaluate the branch condition.')
         if cond.value == 0:
             return False
         return True
@@ -455,7 +455,7 @@ class VerilogOptimizer(object):
         if isinstance(tree, DFSyscall):
             return DFSyscall(tree.syscall, tuple([self.optimizeHierarchy(n) for n in tree.nextnodes]))
 
-        raise FormatError('Can not merge due to unrecognized type of tree')
+        raise verror.FormatError('Can not merge due to unrecognized type of tree')
 
     def takePoint(self, nextnodes, ptr):
         return self.takePart(nextnodes, ptr, ptr)
-- 
2.43.0


From db4884c8f57aa4c3639f635f5fe1a9507d45431c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:00 +0000
Subject: [PATCH 19/69] fix: width of a constant declared with an ascending
 range

---
 pyverilog/dataflow/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 13ac754..c5e1db7 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -121,7 +121,7 @@ class VerilogOptimizer(object):
                 msb_val = self.optimizeConstant(msb)
                 lsb_val = self.optimizeConstant(lsb)
                 if isinstance(msb_val, DFEvalValue) and isinstance(lsb_val, DFEvalValue):
-                    constwidth = msb_val.value - lsb_val.value + 1
+                    constwidth = abs(msb_val.value - lsb_val.value) + 1
             return DFEvalValue(const.value, constwidth)
 
         if isinstance(tree, DFConcat):
-- 
2.43.0


From 22c4c4a93dc4e35619804c7804ccbeaedc309ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:00 +0000
Subject: [PATCH 20/69] fix: recognise powers of two exactly

---
 pyverilog/dataflow/optimizer.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index c5e1db7..316c87b 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -532,10 +532,7 @@ class VerilogOptimizer(object):
     def _isPowerOf2(self, value):
         if value <= 0:
             return False
-        p = math.log(value, 2)
-        if p % 1.0 == 0:
-            return True
-        return False
+        return value & (value - 1) == 0
 
     def replaceOperator(self, node):
         if not isinstance(node, DFOperator):
@@ -544,17 +541,17 @@ class VerilogOptimizer(object):
             (isinstance(node.nextnodes[1], DFEvalValue) and
              isinstance(node.nextnodes[1].value, int) and
              self._isPowerOf2(node.nextnodes[1].value))):
-            return DFOperator((node.nextnodes[0], DFEvalValue(int(math.log(node.nextnodes[1].value, 2)))), 'Sll')
+            return DFOperator((node.nextnodes[0], DFEvalValue(node.nextnodes[1].value.bit_length() - 1)), 'Sll')
         if (node.operator == 'Times' and
             (isinstance(node.nextnodes[0], DFEvalValue) and
              isinstance(node.nextnodes[0].value, int) and
              self._isPowerOf2(node.nextnodes[0].value))):
-            return DFOperator((node.nextnodes[1], DFEvalValue(int(math.log(node.nextnodes[0].value, 2)))), 'Sll')
+            return DFOperator((node.nextnodes[1], DFEvalValue(node.nextnodes[0].value.bit_length() - 1)), 'Sll')
         if (node.operator == 'Divide'
             and (isinstance(node.nextnodes[1], DFEvalValue) and
              isinstance(node.nextnodes[1].value, int) and
                  self._isPowerOf2(node.nextnodes[1].value))):
-            return DFOperator((node.nextnodes[0], DFEvalValue(int(math.log(node.nextnodes[1].value, 2)))), 'Sra')
+            return DFOperator((node.nextnodes[0], DFEvalValue(node.nextnodes[1].value.bit_length() - 1)), 'Sra')
         return node
 
     def mergeConcat(self, concatnode):
-- 
2.43.0


From 0d62a0adf8f65473a5a7d45acb22f679fcebd4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:00 +0000
Subject: [PATCH 21/69] fix: a literal with question marks is undefined

---
 pyverilog/dataflow/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 316c87b..6b04cbf 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -88,7 +88,7 @@ class VerilogOptimizer(object):
         if isinstance(tree, DFIntConst):
             if 'x' in tree.value or 'z' in tree.value:
                 return DFUndefined(tree.width())
-            if 'X' in tree.value or 'Z' in tree.value:
+            if 'X' in tree.value or 'Z' in tree.value or '?' in tree.value:
                 return DFUndefined(tree.width())
             return DFEvalValue(tree.eval(), tree.width())
         if isinstance(tree, DFFloatConst):
-- 
2.43.0


From ba66b13482e0336b72526162607baa228e408385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:02 +0000
Subject: [PATCH 22/69] fix: do not fold selections and concatenations of
 strings

---
 pyverilog/dataflow/optimizer.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 6b04cbf..428990c 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -122,7 +122,7 @@ class VerilogOptimizer(object):
                 lsb_val = self.optimizeConstant(lsb)
                 if isinstance(msb_val, DFEvalValue) and isinstance(lsb_val, DFEvalValue):
                     constwidth = abs(msb_val.value - lsb_val.value) + 1
-            return DFEvalValue(const.value, constwidth)
+            return DFEvalValue(const.value, constwidth, isfloat=const.isfloat, isstring=const.isstring)
 
         if isinstance(tree, DFConcat):
             nextnodes_rslts, all_const = self.evalNextnodes(tree.nextnodes)
@@ -366,6 +366,8 @@ class VerilogOptimizer(object):
         concatval = 0
         sum_width = 0
         for node in nextnodes:
+            if node.isstring:
+                return None
             width = self.getWidth(node)
             sum_width += width
             concatval = (concatval << width) | (node.value & ((1 << width) - 1))
@@ -380,13 +382,13 @@ class VerilogOptimizer(object):
 
     def evalPartselect(self, var, msb, lsb):
         width = msb.value - lsb.value + 1
-        if width <= 0 or lsb.value < 0:
+        if width <= 0 or lsb.value < 0 or var.isstring:
             return DFPartselect(var, msb, lsb)
         partval = (var.value >> lsb.value) & ((1 << width) - 1)
         return DFEvalValue(partval, width)
 
     def evalPointer(self, var, ptr):
-        if ptr.value < 0:
+        if ptr.value < 0 or var.isstring:
             return DFPointer(var, ptr)
         ptrval = (var.value >> ptr.value) & 0x1
         return DFEvalValue(ptrval, 1)
@@ -571,7 +573,7 @@ class VerilogOptimizer(object):
         constvallist = []
         constval = 0
         for n in concatnode.nextnodes:
-            if isinstance(n, DFEvalValue):
+            if isinstance(n, DFEvalValue) and not n.isstring:
                 constvallist.append(n)
                 constval = self.evalConcat(tuple(constvallist))
                 if len(constvallist) > 1:
-- 
2.43.0


From fc7ef498cdf3308b9b47df426039b17635150881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:40 +0000
Subject: [PATCH 23/69] fix: fold unary plus

---
 pyverilog/dataflow/optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 428990c..a06cba8 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -189,6 +189,8 @@ class VerilogOptimizer(object):
     def _evalOperator(self, operator, valuelist, width=default_width):
         if operator == 'Uminus':
             return -1 * valuelist[0]
+        if operator == 'Uplus':
+            return valuelist[0]
         if operator == 'Ulnot':
             if valuelist[0] == 0:
                 return 1
-- 
2.43.0


From ae93a76bdb10d5d25990f41d75d7197c38a423b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:41 +0000
Subject: [PATCH 24/69] fix: conditional index of a bit select

---
 pyverilog/dataflow/reorder.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/reorder.py b/pyverilog/dataflow/reorder.py
index f948af2..0586c32 100644
--- a/pyverilog/dataflow/reorder.py
+++ b/pyverilog/dataflow/reorder.py
@@ -59,8 +59,19 @@ def reorder(tree):
         resolved_msb = reorder(tree.msb)
         resolved_lsb = reorder(tree.lsb)
         resolved_var = reorder(tree.var)
-        if isinstance(resolved_msb, DFBranch) or isinstance(resolved_lsb, DFBranch):
-            raise FormatError('MSB and LSB should not be DFBranch')
+        if isinstance(resolved_msb, DFBranch) and resolved_msb == resolved_lsb:
+            # bit select with a conditional index
+            return DFBranch(resolved_msb.condnode,
+                            reorder(DFPartselect(resolved_var, resolved_msb.truenode, resolved_msb.truenode)),
+                            reorder(DFPartselect(resolved_var, resolved_msb.falsenode, resolved_msb.falsenode)))
+        if isinstance(resolved_msb, DFBranch):
+            return DFBranch(resolved_msb.condnode,
+                            reorder(DFPartselect(resolved_var, resolved_msb.truenode, resolved_lsb)),
+                            reorder(DFPartselect(resolved_var, resolved_msb.falsenode, resolved_lsb)))
+        if isinstance(resolved_lsb, DFBranch):
+            return DFBranch(resolved_lsb.condnode,
+                            reorder(DFPartselect(resolved_var, resolved_msb, resolved_lsb.truenode)),
+                            reorder(DFPartselect(resolved_var, resolved_msb, resolved_lsb.falsenode)))
         if isinstance(resolved_var, DFBranch):
             return insertPartselect(resolved_var, resolved_msb, resolved_lsb)
         return DFPartselect(resolved_var, resolved_msb, resolved_lsb)
-- 
2.43.0


From d7de334433736b37fb05a2e1fc3cce8179c12b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:55 +0000
Subject: [PATCH 25/69] fix: concatenation of selections with variable bounds

---
 pyverilog/dataflow/optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index a06cba8..f3dd264 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -616,6 +616,8 @@ class VerilogOptimizer(object):
                 pass
             elif last_node.var.name != n.var.name:
                 pass
+            elif not all(isinstance(x, DFEvalValue) for x in (last_node.msb, last_node.lsb, n.msb, n.lsb)):
+                pass
             elif last_node.lsb.value == n.msb.value + 1:
                 ret_nodes.pop()
                 new_node = DFPartselect(last_node.var, last_node.msb, n.lsb)
-- 
2.43.0


From c33904b6c64e324577be124b09d7a3349ab7eabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:27 +0000
Subject: [PATCH 26/69] fix: width of a selection with variable bounds

---
 pyverilog/dataflow/optimizer.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index f3dd264..75b16a6 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -330,10 +330,11 @@ class VerilogOptimizer(object):
             return max(truewidth, falsewidth)
 
         if isinstance(node, DFPartselect):
-            msb = self.optimizeConstant(node.msb).value
-            lsb = self.optimizeConstant(node.lsb).value
-            width = abs(msb - lsb) + 1
-            return width
+            msb = self.optimizeConstant(node.msb)
+            lsb = self.optimizeConstant(node.lsb)
+            if isinstance(msb, DFEvalValue) and isinstance(lsb, DFEvalValue):
+                return abs(msb.value - lsb.value) + 1
+            return self.getWidth_variable(msb, lsb)
         if isinstance(node, DFOperator):
             if node.operator in self.onebit_ops:
                 return 1
@@ -364,6 +365,18 @@ class VerilogOptimizer(object):
 
         raise verror.FormatError('Illegal Pointer in getWidth()')
 
+    def getWidth_variable(self, msb, lsb):
+        """width of a selection whose bounds are not constant: [i], [i +: n] or [i -: n]"""
+        if msb == lsb:
+            return 1
+        if (isinstance(msb, DFOperator) and msb.operator == 'Plus' and
+                msb.nextnodes[0] == lsb and isinstance(msb.nextnodes[1], DFEvalValue)):
+            return msb.nextnodes[1].value + 1
+        if (isinstance(lsb, DFOperator) and lsb.operator == 'Minus' and
+                lsb.nextnodes[0] == msb and isinstance(lsb.nextnodes[1], DFEvalValue)):
+            return lsb.nextnodes[1].value + 1
+        raise verror.FormatError('Width of a part select should be constant')
+
     def evalConcat(self, nextnodes):
         concatval = 0
         sum_width = 0
-- 
2.43.0


From c18cd7a1da14f5b10585c10ceeff5122240c6f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:26 +0000
Subject: [PATCH 27/69] fix: bounds of indexed part selects [base +: width] and
 [base -: width]

---
 pyverilog/vparser/parser.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 0de0264..7864285 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -849,6 +849,16 @@ class VerilogParser(object):
         p[0].end_lineno = p.lineno(7)
 
     # --------------------------------------------------------------------------
+    def create_partselect_plus(self, var, base, width, lineno=0):
+        # var[base +: width] selects the bits base + width - 1 downto base
+        last = Minus(width, IntConst('1', lineno=lineno), lineno=lineno)
+        return Partselect(var, Plus(base, last, lineno=lineno), base, lineno=lineno)
+
+    def create_partselect_minus(self, var, base, width, lineno=0):
+        # var[base -: width] selects the bits base downto base - width + 1
+        last = Minus(width, IntConst('1', lineno=lineno), lineno=lineno)
+        return Partselect(var, base, Minus(base, last, lineno=lineno), lineno=lineno)
+
     def p_lpartselect_lpointer(self, p):
         'lpartselect : pointer LBRACKET expression COLON expression RBRACKET'
         p[0] = Partselect(p[1], p[3], p[5], lineno=p.lineno(1))
@@ -856,12 +866,12 @@ class VerilogParser(object):
 
     def p_lpartselect_lpointer_plus(self, p):
         'lpartselect : pointer LBRACKET expression PLUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Plus(p[3], p[5]), lineno=p.lineno(1))
+        p[0] = self.create_partselect_plus(p[1], p[3], p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_lpartselect_lpointer_minus(self, p):
         'lpartselect : pointer LBRACKET expression MINUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Minus(p[3], p[5]), lineno=p.lineno(1))
+        p[0] = self.create_partselect_minus(p[1], p[3], p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_lpartselect(self, p):
@@ -871,12 +881,12 @@ class VerilogParser(object):
 
     def p_lpartselect_plus(self, p):
         'lpartselect : identifier LBRACKET expression PLUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Plus(p[3], p[5]), lineno=p.lineno(1))
+        p[0] = self.create_partselect_plus(p[1], p[3], p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_lpartselect_minus(self, p):
         'lpartselect : identifier LBRACKET expression MINUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Minus(p[3], p[5]), lineno=p.lineno(1))
+        p[0] = self.create_partselect_minus(p[1], p[3], p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_lpointer(self, p):
@@ -1217,14 +1227,12 @@ class VerilogParser(object):
 
     def p_partselect_plus(self, p):
         'partselect : identifier LBRACKET expression PLUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Plus(
-            p[3], p[5], lineno=p.lineno(1)), lineno=p.lineno(1))
+        p[0] = self.create_partselect_plus(p[1], p[3], p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_partselect_minus(self, p):
         'partselect : identifier LBRACKET expression MINUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Minus(
-            p[3], p[5], lineno=p.lineno(1)), lineno=p.lineno(1))
+        p[0] = self.create_partselect_minus(p[1], p[3], p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_partselect_pointer(self, p):
@@ -1234,14 +1242,12 @@ class VerilogParser(object):
 
     def p_partselect_pointer_plus(self, p):
         'partselect : pointer LBRACKET expression PLUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Plus(
-            p[3], p[5], lineno=p.lineno(1)), lineno=p.lineno(1))
+        p[0] = self.create_partselect_plus(p[1], p[3], p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_partselect_pointer_minus(self, p):
         'partselect : pointer LBRACKET expression MINUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Minus(
-            p[3], p[5], lineno=p.lineno(1)), lineno=p.lineno(1))
+        p[0] = self.create_partselect_minus(p[1], p[3], p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_pointer(self, p):
-- 
2.43.0


From ac04cda8e4082aa0596ba690d56e796dee24aea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:26 +0000
Subject: [PATCH 28/69] fix: unique case statement took its parenthesis as the
 expression

---
 pyverilog/vparser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 7864285..f9e080f 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -1698,7 +1698,7 @@ class VerilogParser(object):
 
     def p_unique_case_statement(self, p):
         'unique_case_statement : UNIQUE CASE LPAREN case_comp RPAREN casecontent_statements ENDCASE'
-        p[0] = UniqueCaseStatement(p[3], p[5], lineno=p.lineno(1))
+        p[0] = UniqueCaseStatement(p[4], p[6], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
         p[0].end_lineno = p.lineno(7)
 
-- 
2.43.0


From 30c25c3218cf90c75c34c976f2c7f4bf246dae63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:26 +0000
Subject: [PATCH 29/69] fix: declaration of a signed integer

---
 pyverilog/vparser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index f9e080f..60214bb 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -700,7 +700,7 @@ class VerilogParser(object):
                                  lineno=p.lineno(3)),
                            signed=True,
                            value=rvalue,
-                           lineno=p.lineno(3)) for rname, rvalue in p[2]]
+                           lineno=p.lineno(3)) for rname, rvalue in p[3]]
         p[0] = Decl(tuple(intlist), lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
-- 
2.43.0


From 752fd917ee85cdd7ee74b46c4b6842dc9f2d7b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:26 +0000
Subject: [PATCH 30/69] fix: declared reals were all named "real"

---
 pyverilog/vparser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 60214bb..3d7c402 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -727,7 +727,7 @@ class VerilogParser(object):
     # Real
     def p_realdecl(self, p):
         'realdecl : REAL realnamelist SEMICOLON'
-        reallist = [Real(p[1],
+        reallist = [Real(r,
                          Width(msb=IntConst('31', lineno=p.lineno(2)),
                                lsb=IntConst('0', lineno=p.lineno(2)),
                                lineno=p.lineno(2)),
-- 
2.43.0


From f0432f6b5354dbd681704b4402082767447bf763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:26 +0000
Subject: [PATCH 31/69] fix: name of a net declared with a delayed assignment

---
 pyverilog/vparser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 3d7c402..9945522 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -676,7 +676,7 @@ class VerilogParser(object):
         'declassign_element : delays ID EQUALS delays rvalue'
         assign = Assign(Lvalue(Identifier(p[2], lineno=p.lineno(1)), lineno=p.lineno(2)),
                         p[5], p[1], p[4], lineno=p.lineno(2))
-        p[0] = (p[1], assign)
+        p[0] = (p[2], assign)
         p.set_lineno(0, p.lineno(2))
 
     # Integer
-- 
2.43.0


From 04739d7bc95bb36174b48a470e4242beda7cee19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:03 +0000
Subject: [PATCH 32/69] fix: loops, waits, events and fork blocks as the
 statement of a construct

---
 pyverilog/vparser/parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 9945522..4906f8e 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -1575,11 +1575,13 @@ class VerilogParser(object):
         'parallelblock : FORK block_statements JOIN'
         p[0] = ParallelBlock(p[2], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p.lineno(3)
 
     def p_parallelblock_empty(self, p):
         'parallelblock : FORK JOIN'
         p[0] = ParallelBlock((), lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p.lineno(2)
 
     # --------------------------------------------------------------------------
     def p_if_statement(self, p):
@@ -1631,6 +1633,7 @@ class VerilogParser(object):
         'for_statement : FOR LPAREN forpre forcond forpost RPAREN forcontent_statement'
         p[0] = ForStatement(p[3], p[4], p[5], p[7], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p[7].end_lineno
 
     def p_forpre(self, p):
         'forpre : blocking_substitution'
@@ -1671,6 +1674,7 @@ class VerilogParser(object):
         'while_statement : WHILE LPAREN cond RPAREN whilecontent_statement'
         p[0] = WhileStatement(p[3], p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p[5].end_lineno
 
     def p_whilecontent_statement(self, p):
         'whilecontent_statement : basic_statement'
@@ -1753,12 +1757,14 @@ class VerilogParser(object):
         'event_statement : senslist SEMICOLON'
         p[0] = EventStatement(p[1], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p.lineno(2)
 
     # --------------------------------------------------------------------------
     def p_wait_statement(self, p):
         'wait_statement : WAIT LPAREN cond RPAREN waitcontent_statement'
         p[0] = WaitStatement(p[3], p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p.lineno(5) if p[5] is None else p[5].end_lineno
 
     def p_waitcontent_statement(self, p):
         'waitcontent_statement : basic_statement'
@@ -1775,6 +1781,7 @@ class VerilogParser(object):
         'forever_statement : FOREVER basic_statement'
         p[0] = ForeverStatement(p[2], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p[2].end_lineno
 
     # --------------------------------------------------------------------------
     def p_instance(self, p):
-- 
2.43.0


From a7ca1d3061574126f862821170053f3c97c45aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:46 +0000
Subject: [PATCH 33/69] fix: a bare name in a list of port declarations is
 declared like the port before it

---
 pyverilog/vparser/parser.py | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 4906f8e..13d15dc 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -339,31 +339,21 @@ class VerilogParser(object):
     def p_ioports(self, p):
         'ioports : ioports COMMA ioport'
         if isinstance(p[3], str):
-            t = None
-            for r in reversed(p[1]):
-                if isinstance(r.first, Input):
-                    t = Ioport(Input(name=p[3], width=r.first.width, lineno=p.lineno(3)),
-                               lineno=p.lineno(3))
-                    break
-                if isinstance(r.first, Output) and r.second is None:
-                    t = Ioport(Output(name=p[3], width=r.first.width, lineno=p.lineno(3)),
-                               lineno=p.lineno(3))
-                    break
-                if isinstance(r.first, Output) and isinstance(r.second, Reg):
-                    t = Ioport(Output(name=p[3], width=r.first.width, lineno=p.lineno(3)),
-                               Reg(name=p[3], width=r.first.width,
-                                   lineno=p.lineno(3)),
-                               lineno=p.lineno(3))
-                    break
-                if isinstance(r.first, Inout):
-                    t = Ioport(Inout(name=p[3], width=r.first.width, lineno=p.lineno(3)),
-                               lineno=p.lineno(3))
-                    break
+            # a bare name is declared like the port before it
+            last = p[1][-1]
+            first = self.create_same_decl(last.first, p[3], p.lineno(3))
+            second = self.create_same_decl(last.second, p[3], p.lineno(3))
+            t = Ioport(first, second, lineno=p.lineno(3))
             p[0] = p[1] + (t,)
         else:
             p[0] = p[1] + (p[3],)
         p.set_lineno(0, p.lineno(1))
 
+    def create_same_decl(self, decl, name, lineno):
+        if decl is None:
+            return None
+        return type(decl)(name=name, width=decl.width, signed=decl.signed, lineno=lineno)
+
     def p_ioports_one(self, p):
         'ioports : ioport_head'
         p[0] = (p[1],)
-- 
2.43.0


From d09210659619f4ec85bbce42bafe48bca1b38cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:17 +0000
Subject: [PATCH 34/69] fix: the null statement is no event control

---
 pyverilog/vparser/parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 13d15dc..847f91b 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -1437,6 +1437,7 @@ class VerilogParser(object):
         | blocking_substitution
         | nonblocking_substitution
         | single_statement
+        | null_statement
         """
         p[0] = p[1]
         p.set_lineno(0, p.lineno(1))
@@ -2278,6 +2279,12 @@ class VerilogParser(object):
         p.set_lineno(0, p.lineno(1))
         p[0].end_lineno = p.lineno(2)
 
+    def p_null_statement(self, p):
+        'null_statement : SEMICOLON'
+        p[0] = Block((), lineno=p.lineno(1))
+        p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p.lineno(1)
+
     # fix me: to support task-call-statement
     # def p_single_statement_taskcall(self, p):
     #    'single_statement : functioncall SEMICOLON'
-- 
2.43.0


From 85e897ad88532f107906e7b10eb77c75c49608b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:34 +0000
Subject: [PATCH 35/69] fix: the exclusive nor operator is also written ^~

---
 pyverilog/vparser/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index 8fe6628..914f918 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -129,7 +129,7 @@ class VerilogLexer(object):
 
     t_NOR = r'~\|'
     t_NAND = r'~\&'
-    t_XNOR = r'~\^'
+    t_XNOR = r'~\^|\^~'
     t_OR = r'\|'
     t_AND = r'\&'
     t_XOR = r'\^'
-- 
2.43.0


From 7b829fd360c1b4ef2fb8b9179e6d739ee401b5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:34 +0000
Subject: [PATCH 36/69] fix: signed binary numbers beginning with X

---
 pyverilog/vparser/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index 914f918..8a30e68 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -181,7 +181,7 @@ class VerilogLexer(object):
     t_DOLLER = r'\$'
 
     bin_number = '[0-9]*\'[bB][0-1xXzZ?][0-1xXzZ?_]*'
-    signed_bin_number = '[0-9]*\'[sS][bB][0-1xZzZ?][0-1xXzZ?_]*'
+    signed_bin_number = '[0-9]*\'[sS][bB][0-1xXzZ?][0-1xXzZ?_]*'
     octal_number = '[0-9]*\'[oO][0-7xXzZ?][0-7xXzZ?_]*'
     signed_octal_number = '[0-9]*\'[sS][oO][0-7xXzZ?][0-7xXzZ?_]*'
     hex_number = '[0-9]*\'[hH][0-9a-fA-FxXzZ?][0-9a-fA-FxXzZ?_]*'
-- 
2.43.0


From 9315627ab3068c8eee0f5acb87801a4bb5782101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:34 +0000
Subject: [PATCH 37/69] fix: carriage returns and form feeds are white space

---
 pyverilog/vparser/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index 8a30e68..e7fe5f0 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -95,7 +95,7 @@ class VerilogLexer(object):
     )
 
     # Ignore
-    t_ignore = ' \t'
+    t_ignore = ' \t\r\f'
 
     # Directive
     directive = r"""\`.*?\n"""
-- 
2.43.0


From 4ad0b26e8bd135143d57d9aeb1189536f53e3510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:34 +0000
Subject: [PATCH 38/69] fix: line comment at the end of the text

---
 pyverilog/vparser/lexer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index e7fe5f0..e28bb7f 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -110,12 +110,11 @@ class VerilogLexer(object):
         pass
 
     # Comment
-    linecomment = r"""//.*?\n"""
+    linecomment = r"""//.*"""
     commentout = r"""/\*(.|\n)*?\*/"""
 
     @TOKEN(linecomment)
     def t_LINECOMMENT(self, t):
-        t.lexer.lineno += t.value.count("\n")
         pass
 
     @TOKEN(commentout)
-- 
2.43.0


From 22449060e22941623a1af6031b3039b9614904e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:47 +0000
Subject: [PATCH 39/69] fix: white space and comment after `default_nettype

---
 pyverilog/vparser/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index e28bb7f..34c7ced 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -104,7 +104,7 @@ class VerilogLexer(object):
     def t_DIRECTIVE(self, t):
         self.directives.append((self.lexer.lineno, t.value))
         t.lexer.lineno += t.value.count("\n")
-        m = re.match("^`default_nettype\s+(.+)\n", t.value)
+        m = re.match(r"^`default_nettype\s+(\w+)", t.value)
         if m:
             self.default_nettype = m.group(1)
         pass
-- 
2.43.0


From aca8140096d9305b5bd191bdd98a581a827cad4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:47 +0000
Subject: [PATCH 40/69] fix: line numbers and directives left over from the
 text parsed before

---
 pyverilog/vparser/lexer.py  | 5 +++++
 pyverilog/vparser/parser.py | 1 +
 2 files changed, 6 insertions(+)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index 34c7ced..dc322f9 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -41,6 +41,11 @@ class VerilogLexer(object):
     def reset_lineno(self):
         self.lexer.lineno = 1
 
+    def reset(self):
+        self.reset_lineno()
+        self.directives = []
+        self.default_nettype = 'wire'
+
     def get_directives(self):
         return tuple(self.directives)
 
diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 847f91b..29536a7 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -74,6 +74,7 @@ class VerilogParser(object):
 
     # Returns AST
     def parse(self, text, debug=0):
+        self.lexer.reset()
         return self.parser.parse(text, lexer=self.lexer, debug=debug)
 
     # --------------------------------------------------------------------------
-- 
2.43.0


From 6c25033a889130262703eee34bdc6cb96202f555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:08 +0000
Subject: [PATCH 41/69] fix: a `default_nettype after endmodule changed the
 module before it

---
 pyverilog/vparser/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 29536a7..2d1b99b 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -127,18 +127,20 @@ class VerilogParser(object):
     def p_moduledef(self, p):
         'moduledef : MODULE modulename paramlist portlist items ENDMODULE'
         p[0] = ModuleDef(name=p[2], paramlist=p[3], portlist=p[4], items=p[5],
-                         default_nettype=self.get_default_nettype(), lineno=p.lineno(1))
+                         default_nettype=self.module_nettype, lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
         p[0].end_lineno = p.lineno(6)
 
     def p_modulename(self, p):
         'modulename : ID'
         p[0] = p[1]
+        self.module_nettype = self.get_default_nettype()
         p.set_lineno(0, p.lineno(1))
 
     def p_modulename_or(self, p):
         'modulename : SENS_OR'  # or primitive
         p[0] = p[1]
+        self.module_nettype = self.get_default_nettype()
         p.set_lineno(0, p.lineno(1))
 
     def p_paramlist(self, p):
-- 
2.43.0


From 7eb7da33fef42c95ea96e09636001ea91af96ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:22 +0000
Subject: [PATCH 42/69] fix: generated parameter lists lost their commas and
 every semicolon in a string

---
 pyverilog/ast_code_generator/codegen.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 9b87569..5bf476c 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -99,6 +99,12 @@ def del_space(s):
     return s.replace(' ', '')
 
 
+def del_semicolon(s):
+    if s.endswith(';'):
+        return s[:-1]
+    return s
+
+
 class ASTCodeGenerator(ConvertVisitor):
     def __init__(self, indentsize=2):
         self.env = Environment(loader=FileSystemLoader(DEFAULT_TEMPLATE_DIR))
@@ -148,7 +154,10 @@ class ASTCodeGenerator(ConvertVisitor):
     def visit_Paramlist(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
-        params = [self.visit(param).replace(';', '') for param in node.params]
+        params = []
+        for param in node.params:
+            for p in (param.list if isinstance(param, Decl) else (param,)):
+                params.append(del_semicolon(self.visit(p)))
         template_dict = {
             'params': params,
             'len_params': len(params),
@@ -734,7 +743,7 @@ class ASTCodeGenerator(ConvertVisitor):
         template_dict = {
             'pre': '' if node.pre is None else del_space(self.visit(node.pre)),
             'cond': '' if node.cond is None else del_space(del_paren(self.visit(node.cond))),
-            'post': '' if node.post is None else del_space(self.visit(node.post).replace(';', '')),
+            'post': '' if node.post is None else del_space(del_semicolon(self.visit(node.post))),
             'statement': '' if node.statement is None else self.visit(node.statement),
         }
         rslt = template.render(template_dict)
-- 
2.43.0


From 18f3373d46a463bbdf60a477036945594f5293c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:49 +0000
Subject: [PATCH 43/69] fix: generated ranges glued operators and broke strings
 and escaped names by removing spaces

---
 pyverilog/ast_code_generator/codegen.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 5bf476c..71f77e6 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -95,8 +95,13 @@ def del_paren(s):
     return s
 
 
+# strings, escaped identifiers, and spaces between two words or two operators
+needed_space = re.compile(r"""("(?:\\.|[^"\\])*"|\\\S+ |(?<=[\w$.']) (?=[\w$.'\\"])|"""
+                          r"""(?<=[-+*/%&|^~<>=!]) (?=[-+*/%&|^~<>=!]))| """)
+
+
 def del_space(s):
-    return s.replace(' ', '')
+    return needed_space.sub(lambda m: m.group(1) or '', s)
 
 
 def del_semicolon(s):
-- 
2.43.0


From 2abfaa125f34279fd3d0ec8d1a664cac6db47fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:49 +0000
Subject: [PATCH 44/69] fix: disable was generated as diable

---
 pyverilog/ast_code_generator/template/disable.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/template/disable.txt b/pyverilog/ast_code_generator/template/disable.txt
index a0a9ae8..1752fde 100644
--- a/pyverilog/ast_code_generator/template/disable.txt
+++ b/pyverilog/ast_code_generator/template/disable.txt
@@ -1 +1 @@
-diable {{ name }}
+disable {{ name }}
-- 
2.43.0


From 032a371e9d48c33b7b38ad62edc25c48a9df9ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:49 +0000
Subject: [PATCH 45/69] fix: no code was generated for the operator <<<

---
 pyverilog/ast_code_generator/codegen.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 71f77e6..3e5fd7b 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -505,12 +505,12 @@ class ASTCodeGenerator(ConvertVisitor):
         rorder = op2order(node.right.__class__.__name__)
         left = self.visit(node.left)
         right = self.visit(node.right)
-        if ((not isinstance(node.left, (Sll, Srl, Sra,
+        if ((not isinstance(node.left, (Sll, Srl, Sla, Sra,
                                         LessThan, GreaterThan, LessEq, GreaterEq,
                                         Eq, NotEq, Eql, NotEql))) and
                 (lorder is not None and lorder <= order)):
             left = del_paren(left)
-        if ((not isinstance(node.right, (Sll, Srl, Sra,
+        if ((not isinstance(node.right, (Sll, Srl, Sla, Sra,
                                          LessThan, GreaterThan, LessEq, GreaterEq,
                                          Eq, NotEq, Eql, NotEql))) and
                 (rorder is not None and order > rorder)):
@@ -588,6 +588,9 @@ class ASTCodeGenerator(ConvertVisitor):
     def visit_Srl(self, node):
         return self.visit_Operator(node)
 
+    def visit_Sla(self, node):
+        return self.visit_Operator(node)
+
     def visit_Sra(self, node):
         return self.visit_Operator(node)
 
-- 
2.43.0


From e5db04af26af40469a304cf7cc1eda5c21f08101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:02 +0000
Subject: [PATCH 46/69] fix: no code was generated for the delays of an assign
 statement

---
 pyverilog/ast_code_generator/codegen.py          | 2 ++
 pyverilog/ast_code_generator/template/assign.txt | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 3e5fd7b..4090425 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -657,6 +657,8 @@ class ASTCodeGenerator(ConvertVisitor):
         template_dict = {
             'left': self.visit(node.left),
             'right': self.visit(node.right),
+            'ldelay': '' if node.ldelay is None else self.visit(node.ldelay),
+            'rdelay': '' if node.rdelay is None else self.visit(node.rdelay),
         }
         rslt = template.render(template_dict)
         rslt = indent_multiline_assign(rslt)
diff --git a/pyverilog/ast_code_generator/template/assign.txt b/pyverilog/ast_code_generator/template/assign.txt
index 86c1391..233f2e2 100644
--- a/pyverilog/ast_code_generator/template/assign.txt
+++ b/pyverilog/ast_code_generator/template/assign.txt
@@ -1 +1 @@
-assign {{ left }} = {{ right }};
+assign {% if ldelay != '' %}{{ ldelay }} {% endif %}{{ left }} = {% if rdelay != '' %}{{ rdelay }} {% endif %}{{ right }};
-- 
2.43.0


From e7c035dcb043b85088aaff1f09e1524cba619001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:46 +0000
Subject: [PATCH 47/69] fix: no code was generated for casez and unique case
 statements

---
 pyverilog/ast_code_generator/codegen.py                     | 6 ++++++
 pyverilog/ast_code_generator/template/casezstatement.txt    | 5 +++++
 .../ast_code_generator/template/uniquecasestatement.txt     | 5 +++++
 3 files changed, 16 insertions(+)
 create mode 100644 pyverilog/ast_code_generator/template/casezstatement.txt
 create mode 100644 pyverilog/ast_code_generator/template/uniquecasestatement.txt

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 4090425..f999f61 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -789,6 +789,12 @@ class ASTCodeGenerator(ConvertVisitor):
         rslt = template.render(template_dict)
         return rslt
 
+    def visit_CasezStatement(self, node):
+        return self.visit_CaseStatement(node)
+
+    def visit_UniqueCaseStatement(self, node):
+        return self.visit_CaseStatement(node)
+
     def visit_Case(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
diff --git a/pyverilog/ast_code_generator/template/casezstatement.txt b/pyverilog/ast_code_generator/template/casezstatement.txt
new file mode 100644
index 0000000..4a897b1
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/casezstatement.txt
@@ -0,0 +1,5 @@
+casez({{ comp }})
+{%- for case in caselist %}
+{{ case }}
+{%- endfor %}
+endcase
diff --git a/pyverilog/ast_code_generator/template/uniquecasestatement.txt b/pyverilog/ast_code_generator/template/uniquecasestatement.txt
new file mode 100644
index 0000000..88ec8f8
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/uniquecasestatement.txt
@@ -0,0 +1,5 @@
+unique case({{ comp }})
+{%- for case in caselist %}
+{{ case }}
+{%- endfor %}
+endcase
-- 
2.43.0


From 1942faf2f7e20a06bb9f0e0375b1096d4a3bde99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:46 +0000
Subject: [PATCH 48/69] fix: no code was generated for always_ff, always_comb
 and always_latch

---
 pyverilog/ast_code_generator/codegen.py               | 9 +++++++++
 pyverilog/ast_code_generator/template/alwayscomb.txt  | 3 +++
 pyverilog/ast_code_generator/template/alwaysff.txt    | 3 +++
 pyverilog/ast_code_generator/template/alwayslatch.txt | 3 +++
 4 files changed, 18 insertions(+)
 create mode 100644 pyverilog/ast_code_generator/template/alwayscomb.txt
 create mode 100644 pyverilog/ast_code_generator/template/alwaysff.txt
 create mode 100644 pyverilog/ast_code_generator/template/alwayslatch.txt

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index f999f61..d3c3ec9 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -674,6 +674,15 @@ class ASTCodeGenerator(ConvertVisitor):
         rslt = template.render(template_dict)
         return rslt
 
+    def visit_AlwaysFF(self, node):
+        return self.visit_Always(node)
+
+    def visit_AlwaysComb(self, node):
+        return self.visit_Always(node)
+
+    def visit_AlwaysLatch(self, node):
+        return self.visit_Always(node)
+
     def visit_SensList(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
diff --git a/pyverilog/ast_code_generator/template/alwayscomb.txt b/pyverilog/ast_code_generator/template/alwayscomb.txt
new file mode 100644
index 0000000..b72886b
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/alwayscomb.txt
@@ -0,0 +1,3 @@
+
+always_comb @({{ sens_list }}) {{ statement }}
+
diff --git a/pyverilog/ast_code_generator/template/alwaysff.txt b/pyverilog/ast_code_generator/template/alwaysff.txt
new file mode 100644
index 0000000..11860f0
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/alwaysff.txt
@@ -0,0 +1,3 @@
+
+always_ff @({{ sens_list }}) {{ statement }}
+
diff --git a/pyverilog/ast_code_generator/template/alwayslatch.txt b/pyverilog/ast_code_generator/template/alwayslatch.txt
new file mode 100644
index 0000000..35eeaf0
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/alwayslatch.txt
@@ -0,0 +1,3 @@
+
+always_latch @({{ sens_list }}) {{ statement }}
+
-- 
2.43.0


From 9d37f08cd04a2daf8082d8990891e3579dddcc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:46 +0000
Subject: [PATCH 49/69] fix: no declaration was generated for supply0 and
 supply1

---
 pyverilog/ast_code_generator/codegen.py          | 12 ++++++++++++
 pyverilog/ast_code_generator/template/supply.txt |  1 +
 2 files changed, 13 insertions(+)
 create mode 100644 pyverilog/ast_code_generator/template/supply.txt

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index d3c3ec9..c77356f 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -325,6 +325,18 @@ class ASTCodeGenerator(ConvertVisitor):
         rslt = template.render(template_dict)
         return rslt
 
+    def visit_Supply(self, node):
+        filename = getfilename(node)
+        template = self.get_template(filename)
+        template_dict = {
+            'name': escape(node.name),
+            'value': self.visit(node.value),
+            'width': '' if node.width is None else self.visit(node.width),
+            'signed': node.signed,
+        }
+        rslt = template.render(template_dict)
+        return rslt
+
     def visit_Wire(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
diff --git a/pyverilog/ast_code_generator/template/supply.txt b/pyverilog/ast_code_generator/template/supply.txt
new file mode 100644
index 0000000..cc26190
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/supply.txt
@@ -0,0 +1 @@
+supply{{ value }} {% if signed %}signed {% endif %}{% if width != '' %}{{ width }} {% endif %}{{ name }};
\ No newline at end of file
-- 
2.43.0


From d7f8ac58ffac78f853530e83f2ffce5fc85ec448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:46 +0000
Subject: [PATCH 50/69] fix: no code was generated for the initial value of an
 integer

---
 pyverilog/ast_code_generator/codegen.py           | 1 +
 pyverilog/ast_code_generator/template/integer.txt | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index c77356f..66405f8 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -367,6 +367,7 @@ class ASTCodeGenerator(ConvertVisitor):
         template_dict = {
             'name': escape(node.name),
             'signed': node.signed,
+            'value': '' if node.value is None else self.visit(node.value),
         }
         rslt = template.render(template_dict)
         return rslt
diff --git a/pyverilog/ast_code_generator/template/integer.txt b/pyverilog/ast_code_generator/template/integer.txt
index 4f9e337..24796c2 100644
--- a/pyverilog/ast_code_generator/template/integer.txt
+++ b/pyverilog/ast_code_generator/template/integer.txt
@@ -1 +1 @@
-integer {{ name }};
+integer {{ name }}{% if value != '' %} = {{ value }}{% endif %};
\ No newline at end of file
-- 
2.43.0


From 911587ac72f9b76e86bd859cdf6243e300254a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:16 +0000
Subject: [PATCH 51/69] fix: the items of a generate block were generated
 without white space between

---
 pyverilog/ast_code_generator/template/generatestatement.txt | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/ast_code_generator/template/generatestatement.txt b/pyverilog/ast_code_generator/template/generatestatement.txt
index f7447a0..d0f57c0 100644
--- a/pyverilog/ast_code_generator/template/generatestatement.txt
+++ b/pyverilog/ast_code_generator/template/generatestatement.txt
@@ -1,4 +1,4 @@
 
-generate {% for item in items %}{{ item }}{% endfor %}
-endgenerate
+generate {% for item in items %}{{ item }}
+{% endfor %}endgenerate
 
-- 
2.43.0


From 397234fea913e7deb9c96d344f8a7559c58a0d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:17 +0000
Subject: [PATCH 52/69] fix: delays other than names and numbers need
 parentheses

---
 pyverilog/ast_code_generator/codegen.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 66405f8..666a155 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -883,8 +883,11 @@ class ASTCodeGenerator(ConvertVisitor):
     def visit_DelayStatement(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
+        delay = self.visit(node.delay)
+        if not isinstance(node.delay, (Identifier, Constant)):
+            delay = '(' + del_paren(delay) + ')'
         template_dict = {
-            'delay': self.visit(node.delay),
+            'delay': delay,
         }
         rslt = template.render(template_dict)
         return rslt
-- 
2.43.0


From 65d491454edb389a15000abfdaefb69451767982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:17 +0000
Subject: [PATCH 53/69] fix: for statements without initial assignment were
 generated without its semicolon

---
 pyverilog/ast_code_generator/codegen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 666a155..ca3d7fc 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -773,7 +773,7 @@ class ASTCodeGenerator(ConvertVisitor):
         filename = getfilename(node)
         template = self.get_template(filename)
         template_dict = {
-            'pre': '' if node.pre is None else del_space(self.visit(node.pre)),
+            'pre': ';' if node.pre is None else del_space(self.visit(node.pre)),
             'cond': '' if node.cond is None else del_space(del_paren(self.visit(node.cond))),
             'post': '' if node.post is None else del_space(del_semicolon(self.visit(node.post))),
             'statement': '' if node.statement is None else self.visit(node.statement),
-- 
2.43.0


From 702eaeb2d5a73a49dfa067d79260015b40acd7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:17 +0000
Subject: [PATCH 54/69] fix: the ranges of parameters with a string were
 dropped

---
 pyverilog/ast_code_generator/codegen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index ca3d7fc..43f8fc8 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -410,7 +410,7 @@ class ASTCodeGenerator(ConvertVisitor):
         value = self.visit(node.value)
         template_dict = {
             'name': escape(node.name),
-            'width': '' if node.width is None or (value.startswith('"') and value.endswith('"')) else self.visit(node.width),
+            'width': '' if node.width is None else self.visit(node.width),
             'value': value,
             'signed': node.signed,
         }
@@ -423,7 +423,7 @@ class ASTCodeGenerator(ConvertVisitor):
         value = self.visit(node.value)
         template_dict = {
             'name': escape(node.name),
-            'width': '' if node.width is None or (value.startswith('"') and value.endswith('"')) else self.visit(node.width),
+            'width': '' if node.width is None else self.visit(node.width),
             'value': value,
             'signed': node.signed,
         }
-- 
2.43.0


From 7118ab737c2a3a7351cdedea8925e9e677ea02a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:17 +0000
Subject: [PATCH 55/69] fix: else parts were generated behind an inner if
 statement without else

---
 pyverilog/ast_code_generator/codegen.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 43f8fc8..2562659 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -110,6 +110,18 @@ def del_semicolon(s):
     return s
 
 
+def takes_else(node):
+    """whether an else behind the statement would become a part of it"""
+    while isinstance(node, (IfStatement, ForStatement, WhileStatement, ForeverStatement, WaitStatement)):
+        if isinstance(node, IfStatement):
+            if node.false_statement is None:
+                return True
+            node = node.false_statement
+        else:
+            node = node.statement
+    return False
+
+
 class ASTCodeGenerator(ConvertVisitor):
     def __init__(self, indentsize=2):
         self.env = Environment(loader=FileSystemLoader(DEFAULT_TEMPLATE_DIR))
@@ -760,6 +772,8 @@ class ASTCodeGenerator(ConvertVisitor):
         filename = getfilename(node)
         template = self.get_template(filename)
         true_statement = '' if node.true_statement is None else self.visit(node.true_statement)
+        if node.false_statement is not None and takes_else(node.true_statement):
+            true_statement = self.visit(Block((node.true_statement,)))
         false_statement = '' if node.false_statement is None else self.visit(node.false_statement)
         template_dict = {
             'cond': del_paren(self.visit(node.cond)),
-- 
2.43.0


From b7d9aea85e055dd78d366789173e5491dc56216b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:39 +0000
Subject: [PATCH 56/69] fix: declarations of several names left the generate if
 and for they are in

---
 pyverilog/ast_code_generator/codegen.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 2562659..9db8229 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -768,13 +768,18 @@ class ASTCodeGenerator(ConvertVisitor):
         rslt = indent_multiline_assign(rslt)
         return rslt
 
+    def visit_branch(self, node):
+        if isinstance(node, Decl) and len(node.list) != 1:
+            node = Block((node,))
+        return self.visit(node)
+
     def visit_IfStatement(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
-        true_statement = '' if node.true_statement is None else self.visit(node.true_statement)
+        true_statement = '' if node.true_statement is None else self.visit_branch(node.true_statement)
         if node.false_statement is not None and takes_else(node.true_statement):
             true_statement = self.visit(Block((node.true_statement,)))
-        false_statement = '' if node.false_statement is None else self.visit(node.false_statement)
+        false_statement = '' if node.false_statement is None else self.visit_branch(node.false_statement)
         template_dict = {
             'cond': del_paren(self.visit(node.cond)),
             'true_statement': true_statement,
@@ -790,7 +795,7 @@ class ASTCodeGenerator(ConvertVisitor):
             'pre': ';' if node.pre is None else del_space(self.visit(node.pre)),
             'cond': '' if node.cond is None else del_space(del_paren(self.visit(node.cond))),
             'post': '' if node.post is None else del_space(del_semicolon(self.visit(node.post))),
-            'statement': '' if node.statement is None else self.visit(node.statement),
+            'statement': '' if node.statement is None else self.visit_branch(node.statement),
         }
         rslt = template.render(template_dict)
         return rslt
-- 
2.43.0


From 3699168a61978f9257f8b02f0add68bb543c232c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:01 +0000
Subject: [PATCH 57/69] fix: the else of a generate if went to an if at the end
 of its initial or always

---
 pyverilog/ast_code_generator/codegen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 9db8229..de5f29b 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -112,7 +112,8 @@ def del_semicolon(s):
 
 def takes_else(node):
     """whether an else behind the statement would become a part of it"""
-    while isinstance(node, (IfStatement, ForStatement, WhileStatement, ForeverStatement, WaitStatement)):
+    while isinstance(node, (IfStatement, ForStatement, WhileStatement, ForeverStatement, WaitStatement,
+                            Initial, Always)):
         if isinstance(node, IfStatement):
             if node.false_statement is None:
                 return True
-- 
2.43.0


From 164c2ba08a0b164fccf6c5f725d5118053308d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:36 +0000
Subject: [PATCH 58/69] fix: a string as delay needs parentheses

---
 pyverilog/ast_code_generator/codegen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index de5f29b..dfe5a86 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -904,7 +904,7 @@ class ASTCodeGenerator(ConvertVisitor):
         filename = getfilename(node)
         template = self.get_template(filename)
         delay = self.visit(node.delay)
-        if not isinstance(node.delay, (Identifier, Constant)):
+        if not isinstance(node.delay, (Identifier, IntConst, FloatConst)):
             delay = '(' + del_paren(delay) + ')'
         template_dict = {
             'delay': delay,
-- 
2.43.0


From aa91ef36f295f2ac24b34cd30e37555548c27ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:47 +0000
Subject: [PATCH 59/69] fix: comparing a state with something that is no
 constant is a condition like others

---
 pyverilog/controlflow/transition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/controlflow/transition.py b/pyverilog/controlflow/transition.py
index 084c113..cb0da21 100644
--- a/pyverilog/controlflow/transition.py
+++ b/pyverilog/controlflow/transition.py
@@ -72,10 +72,10 @@ def _walkCond_DFOperator_dual(cond, termname, termwidth=32):
     l = cond.nextnodes[0]
     r = cond.nextnodes[1]
 
-    if isinstance(l, DFTerminal) and l.name == termname:
+    if isinstance(l, DFTerminal) and l.name == termname and isinstance(r, DFEvalValue):
         infval = inference.infer(cond.operator, r)
         return createStateNode(infval, termwidth)
-    if isinstance(r, DFTerminal) and r.name == termname:
+    if isinstance(r, DFTerminal) and r.name == termname and isinstance(l, DFEvalValue):
         new_op = re.sub('Greater', 'TMP', cond.operator)
         new_op = re.sub('Less', 'Greater', new_op)
         new_op = re.sub('TMP', 'Less', new_op)
-- 
2.43.0


From ae07e400e90d0debdedae4706c867e86a8bbb16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:47 +0000
Subject: [PATCH 60/69] fix: <= with a state was not inferred

---
 pyverilog/utils/inference.py  | 2 +-
 pyverilog/utils/signaltype.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/utils/inference.py b/pyverilog/utils/inference.py
index d241360..b86b0fa 100644
--- a/pyverilog/utils/inference.py
+++ b/pyverilog/utils/inference.py
@@ -42,7 +42,7 @@ def op_GreaterThan(val):
     return InferredValue(minval, maxval)
 
 
-def op_LassEq(val):
+def op_LessEq(val):
     minval = 0
     maxval = val
     return InferredValue(minval, maxval)
diff --git a/pyverilog/utils/signaltype.py b/pyverilog/utils/signaltype.py
index 4371c52..da3e432 100644
--- a/pyverilog/utils/signaltype.py
+++ b/pyverilog/utils/signaltype.py
@@ -85,7 +85,7 @@ def isReset(search_str):
 
 
 # Operator
-compare_ops = ('LessThan', 'GreaterThan', 'LassEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql')
+compare_ops = ('LessThan', 'GreaterThan', 'LessEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql')
 not_ops = ('Ulnot', 'Unot')
 split_and_ops = ('And', 'Land')
 split_or_ops = ('Or', 'Lor')
-- 
2.43.0


From 1431cd824f35be851ee31a4cdd0552060cf05250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:47 +0000
Subject: [PATCH 61/69] fix: a reduction as condition was taken for its operand

---
 pyverilog/controlflow/transition.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyverilog/controlflow/transition.py b/pyverilog/controlflow/transition.py
index cb0da21..71ead4b 100644
--- a/pyverilog/controlflow/transition.py
+++ b/pyverilog/controlflow/transition.py
@@ -48,6 +48,8 @@ def _walkCond_DFOperator_unary(cond, termname, termwidth=32):
     node = walkCond(cond.nextnodes[0], termname, termwidth)
     if signaltype.isNot(cond.operator):
         node = notStateNodeList(node)
+    elif cond.operator not in ('Uor', 'Uplus'):
+        return StateNode(transcond=cond, maxvalue=util.maxValue(termwidth), isany=True)
     return node
 
 
-- 
2.43.0


From bf10e6d0f86ef585becc3e6c6ca106a0c921b769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:29 +0000
Subject: [PATCH 62/69] fix: comparing a state with a constant gave states that
 it can not have

---
 pyverilog/controlflow/transition.py | 7 ++++---
 pyverilog/utils/inference.py        | 3 ---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/pyverilog/controlflow/transition.py b/pyverilog/controlflow/transition.py
index 71ead4b..ed238ed 100644
--- a/pyverilog/controlflow/transition.py
+++ b/pyverilog/controlflow/transition.py
@@ -272,11 +272,12 @@ def createStateNode(infval, width):
     statelabels = []
     minval = infval.minval
     maxval = infval.maxval
-    if minval is None:
+    if minval is None or minval < 0:
         minval = 0
-    if maxval is None:
+    if maxval is None or maxval > util.maxValue(width):
         maxval = util.maxValue(width)
-    ret = StateNode(((minval, maxval),), 0, util.maxValue(width), None)
+    range_pairs = ((minval, maxval),) if minval <= maxval else ()
+    ret = StateNode(range_pairs, 0, util.maxValue(width), None)
     if infval.inv:
         ret = notStateNodeList(ret)
     return ret
diff --git a/pyverilog/utils/inference.py b/pyverilog/utils/inference.py
index b86b0fa..4c0f35a 100644
--- a/pyverilog/utils/inference.py
+++ b/pyverilog/utils/inference.py
@@ -30,9 +30,6 @@ def infer(op, node):
 def op_LessThan(val):
     minval = 0
     maxval = val - 1
-    if maxval < 0:
-        minval = None
-        maxval = None
     return InferredValue(minval, maxval)
 
 
-- 
2.43.0


From 6b8106279bd8c60c3d930eb13fe84343ed3ec4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:29 +0000
Subject: [PATCH 63/69] fix: a condition that holds in no state was taken for
 one that always holds

---
 pyverilog/controlflow/transition.py | 47 +++++++++++------------------
 1 file changed, 18 insertions(+), 29 deletions(-)

diff --git a/pyverilog/controlflow/transition.py b/pyverilog/controlflow/transition.py
index ed238ed..8436959 100644
--- a/pyverilog/controlflow/transition.py
+++ b/pyverilog/controlflow/transition.py
@@ -24,10 +24,9 @@ def walkCondlist(condlist, termname, termwidth=32):
         return StateNode(maxvalue=maxvalue, isany=True)
     for cond in condlist:
         rslt = walkCond(cond, termname, termwidth)
-        if node and rslt:
-            node = andStateNodeList(node, rslt)
-        elif rslt:
-            node = rslt
+        node = rslt if node is None else andStateNodeList(node, rslt)
+        if node is None:
+            return None
     return node
 
 
@@ -47,6 +46,8 @@ def walkCond(cond, termname, termwidth=32):
 def _walkCond_DFOperator_unary(cond, termname, termwidth=32):
     node = walkCond(cond.nextnodes[0], termname, termwidth)
     if signaltype.isNot(cond.operator):
+        if node is None:
+            return StateNode(maxvalue=util.maxValue(termwidth), isany=True)
         node = notStateNodeList(node)
     elif cond.operator not in ('Uor', 'Uplus'):
         return StateNode(transcond=cond, maxvalue=util.maxValue(termwidth), isany=True)
@@ -61,15 +62,11 @@ def _walkCond_DFOperator_dual(cond, termname, termwidth=32):
     if not signaltype.isCompare(cond.operator) and signaltype.isOr(cond.operator):
         lnode = walkCond(cond.nextnodes[0], termname, termwidth)
         rnode = walkCond(cond.nextnodes[1], termname, termwidth)
-        ret = orStateNodeList(lnode, rnode)
-        if ret:
-            return ret
+        return orStateNodeList(lnode, rnode)
     if not signaltype.isCompare(cond.operator) and signaltype.isAnd(cond.operator):
         lnode = walkCond(cond.nextnodes[0], termname, termwidth)
         rnode = walkCond(cond.nextnodes[1], termname, termwidth)
-        ret = andStateNodeList(lnode, rnode)
-        if ret:
-            return ret
+        return andStateNodeList(lnode, rnode)
 
     l = cond.nextnodes[0]
     r = cond.nextnodes[1]
@@ -92,20 +89,18 @@ def notStateNodeList(node):
     if isStateNode(node):
         return notStateNode(node)
     if isStateNodeList(node):
-        new_nodes = []
-        for n in node.nodelist:
-            new_nodes.append(notStateNode(n))
-        ret_node = None
-        for n in new_nodes:
-            if ret_node is None:
-                ret_node = n
-            else:
-                ret_node = andStateNodeList(ret_node, n)
+        ret_node = notStateNode(node.nodelist[0])
+        for n in node.nodelist[1:]:
+            ret_node = andStateNodeList(ret_node, notStateNode(n))
         return ret_node
     return None
 
 
 def orStateNodeList(lnode, rnode):
+    if lnode is None:
+        return rnode
+    if rnode is None:
+        return lnode
     if isStateNode(lnode) and isStateNode(rnode):
         return StateNodeList((lnode, rnode))
     if isStateNodeList(lnode) and isStateNodeList(rnode):
@@ -127,12 +122,8 @@ def orStateNodeList(lnode, rnode):
 
 
 def andStateNodeList(lnode, rnode):
-    if lnode is None and rnode is None:
+    if lnode is None or rnode is None:
         return None
-    if lnode is None:
-        return rnode
-    if rnode is None:
-        return lnode
 
     if isStateNode(lnode) and isStateNode(rnode):
         return andStateNode(lnode, rnode)
@@ -169,6 +160,8 @@ def andStateNodeList(lnode, rnode):
 
 def notStateNode(node):
     if node.isany:
+        if node.transcond is None:
+            return None
         new_transcond = _not_transcond(node.transcond)
         return StateNode(transcond=new_transcond, maxvalue=node.maxvalue, isany=True)
     new_range_pairs = _not_range_pairs(node)
@@ -181,12 +174,8 @@ def notStateNode(node):
 
 
 def andStateNode(sna, snb):
-    if sna is None and snb is None:
+    if sna is None or snb is None:
         return None
-    if sna is None:
-        return snb
-    if snb is None:
-        return sna
 
     isany = False
     range_pairs = []
-- 
2.43.0


From 0367d7a8ddf03b30fabba5ba758cd467ffe85c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:05 +0000
Subject: [PATCH 64/69] fix: endless recursion on a state register that only
 keeps its value

---
 pyverilog/controlflow/controlflow_analyzer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyverilog/controlflow/controlflow_analyzer.py b/pyverilog/controlflow/controlflow_analyzer.py
index 0ebae8a..7875681 100644
--- a/pyverilog/controlflow/controlflow_analyzer.py
+++ b/pyverilog/controlflow/controlflow_analyzer.py
@@ -79,7 +79,7 @@ class VerilogControlflowAnalyzer(VerilogSubset):
                 fsm.construct(func.value, statenode)
         return fsm
 
-    def getFuncdict(self, termname, delaycnt=0):
+    def getFuncdict(self, termname, delaycnt=0, visited=()):
         termtype = self.getTermtype(termname)
         if not self.isClockEdge(termname):
             return {}, 0
@@ -90,8 +90,9 @@ class VerilogControlflowAnalyzer(VerilogSubset):
         funcdict = splitter.remove_reset_condition(funcdict)
         if len(funcdict) == 1 and len(list(funcdict.keys())[0]) == 0:
             next_term = list(funcdict.values())[0]
-            if isinstance(next_term, DFTerminal):
-                return self.getFuncdict(next_term.name, delaycnt + 1)
+            visited = visited + (termname,)
+            if isinstance(next_term, DFTerminal) and next_term.name not in visited:
+                return self.getFuncdict(next_term.name, delaycnt + 1, visited)
         return funcdict, delaycnt
 
     def isFsmVar(self, termname):
-- 
2.43.0


From 5b2abec939f922fbf5dfb1221a68ab09f7d9e52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:05 +0000
Subject: [PATCH 65/69] fix: a state register loaded from an input stopped the
 analysis

---
 pyverilog/dataflow/merge.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/merge.py b/pyverilog/dataflow/merge.py
index c3216aa..b0f6ffe 100644
--- a/pyverilog/dataflow/merge.py
+++ b/pyverilog/dataflow/merge.py
@@ -161,8 +161,8 @@ class VerilogDataflowMerge(object):
         raise verror.ImplementationError()
 
     def isClockEdge(self, termname, msb=None, lsb=None, ptr=None):
-        bind = self.binddict[termname]
-        return bind[0].isClockEdge()
+        bind = self.getBindlist(termname)
+        return len(bind) > 0 and bind[0].isClockEdge()
 
     def getSources(self, tree):
         if tree is None:
-- 
2.43.0


From e7f6486448bf268e16406b8cdb1d2aceac43438f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:52 +0000
Subject: [PATCH 66/69] fix: a signed literal has the width of its size

---
 pyverilog/dataflow/dataflow.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyverilog/dataflow/dataflow.py b/pyverilog/dataflow/dataflow.py
index 1aff55d..798ebfe 100644
--- a/pyverilog/dataflow/dataflow.py
+++ b/pyverilog/dataflow/dataflow.py
@@ -172,16 +172,16 @@ class DFIntConst(DFConstant):
 
     def width(self):
         targ = self.value.replace('_', '')
-        match = re.search(r'(.+)\'[Hh].+', targ)
+        match = re.search(r'(.+)\'[Ss]?[Hh].+', targ)
         if match is not None:
             return int(match.group(1), 10)
-        match = re.search(r'(.+)\'[Dd].+', targ)
+        match = re.search(r'(.+)\'[Ss]?[Dd].+', targ)
         if match is not None:
             return int(match.group(1), 10)
-        match = re.search(r'(.+)\'[Oo].+', targ)
+        match = re.search(r'(.+)\'[Ss]?[Oo].+', targ)
         if match is not None:
             return int(match.group(1), 10)
-        match = re.search(r'(.+)\'[Bb].+', targ)
+        match = re.search(r'(.+)\'[Ss]?[Bb].+', targ)
         if match is not None:
             return int(match.group(1), 10)
         return 32
-- 
2.43.0


From 30679ef7bd1c718940f6ac127cbdd1e1c5841f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:52 +0000
Subject: [PATCH 67/69] fix: a literal is cut to its size

---
 pyverilog/dataflow/dataflow.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyverilog/dataflow/dataflow.py b/pyverilog/dataflow/dataflow.py
index 798ebfe..9ec0e5c 100644
--- a/pyverilog/dataflow/dataflow.py
+++ b/pyverilog/dataflow/dataflow.py
@@ -158,18 +158,23 @@ class DFIntConst(DFConstant):
             signed = True
         match = re.search(r'[Hh](.+)', targ)
         if match is not None:
-            return int(match.group(1), 16)
+            return self.cut(int(match.group(1), 16))
         match = re.search(r'[Dd](.+)', targ)
         if match is not None:
-            return int(match.group(1), 10)
+            return self.cut(int(match.group(1), 10))
         match = re.search(r'[Oo](.+)', targ)
         if match is not None:
-            return int(match.group(1), 8)
+            return self.cut(int(match.group(1), 8))
         match = re.search(r'[Bb](.+)', targ)
         if match is not None:
-            return int(match.group(1), 2)
+            return self.cut(int(match.group(1), 2))
         return int(targ, 10)
 
+    def cut(self, value):
+        if self.value.startswith('\''):
+            return value
+        return value & ((1 << self.width()) - 1)
+
     def width(self):
         targ = self.value.replace('_', '')
         match = re.search(r'(.+)\'[Ss]?[Hh].+', targ)
-- 
2.43.0


From 096a65b16ba29b745baeea023fd5c1ca83eb2cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:32 +0000
Subject: [PATCH 68/69] fix: a parameter without a known value stopped the
 analysis from ending

---
 pyverilog/dataflow/bindvisitor.py   | 4 ++++
 pyverilog/dataflow/signalvisitor.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 21b8b4f..7b76642 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -601,6 +601,7 @@ class BindVisitor(NodeVisitor):
         all_passed = False
         while not all_passed:
             all_passed = True
+            resolved = False
             for name, definitions in self.frames.getConsts(current).items():
                 if len(definitions) > 1:
                     raise verror.FormatError("Multiple definitions for Constant")
@@ -615,6 +616,9 @@ class BindVisitor(NodeVisitor):
                         all_passed = False
                         continue
                     self.setConstant(name, value)
+                    resolved = True
+            if not resolved:
+                break
 
     def copyAllFrameInfo(self):
         for name, definitions in self.frames.getAllConsts().items():
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index 98e0416..be0dd25 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -392,6 +392,7 @@ class SignalVisitor(NodeVisitor):
         all_passed = False
         while not all_passed:
             all_passed = True
+            resolved = False
             for name, definitions in self.frames.getConsts(current).items():
                 if len(definitions) > 1:
                     raise verror.FormatError("Multiple definitions for Constant")
@@ -408,6 +409,9 @@ class SignalVisitor(NodeVisitor):
                         continue
 
                     self.setConstant(name, value)
+                    resolved = True
+            if not resolved:
+                break
 
     def setConstant(self, name, value):
         self.optimizer.setConstant(name, value)
-- 
2.43.0


From b71847185de135a3194bdb8e56970a48e4ac7a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:46 +0000
Subject: [PATCH 69/69] fix: blank connections of a positional port list were
 dropped or refused

---
 pyverilog/vparser/parser.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 2d1b99b..d11cf68 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -1920,11 +1920,27 @@ class VerilogParser(object):
         p[0] = (p[1],)
         p.set_lineno(0, p.lineno(1))
 
-    def p_instance_ports_list_empty(self, p):
-        'instance_ports_list : empty'
+    def p_instance_ports_empty(self, p):
+        'instance_ports : empty'
         p[0] = ()
         p.set_lineno(0, p.lineno(1))
 
+    def p_instance_ports_list_blank(self, p):
+        'instance_ports_list : instance_ports_list COMMA'
+        p[0] = p[1] + (PortArg(None, None, lineno=p.lineno(2)),)
+        p.set_lineno(0, p.lineno(1))
+
+    def p_instance_ports_list_blank_first(self, p):
+        'instance_ports_list : COMMA instance_port_list'
+        p[0] = (PortArg(None, None, lineno=p.lineno(1)), p[2])
+        p.set_lineno(0, p.lineno(1))
+
+    def p_instance_ports_list_blank_all(self, p):
+        'instance_ports_list : COMMA'
+        p[0] = (PortArg(None, None, lineno=p.lineno(1)),
+                PortArg(None, None, lineno=p.lineno(1)))
+        p.set_lineno(0, p.lineno(1))
+
     def p_instance_port_list(self, p):
         'instance_port_list : expression'
         p[0] = PortArg(None, p[1], lineno=p.lineno(1))
-- 
2.43.0

