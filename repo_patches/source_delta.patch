From 3f98c3b68f367bda2d9558bec76c3948b6db2ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 01/32] fix: memory composites iterate with range (xrange does
 not exist in Python 3)

---
 b3/composites/mempriority.py | 2 +-
 b3/composites/memsequence.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/b3/composites/mempriority.py b/b3/composites/mempriority.py
index 1e3a593..17c9c36 100644
--- a/b3/composites/mempriority.py
+++ b/b3/composites/mempriority.py
@@ -12,7 +12,7 @@ class MemPriority(b3.Composite):
     def tick(self, tick):
         idx = tick.blackboard.get('running_child', tick.tree.id, self.id)
 
-        for i in xrange(idx, len(self.children)):
+        for i in range(idx, len(self.children)):
             node = self.children[i]
             status = node._execute(tick)
 
diff --git a/b3/composites/memsequence.py b/b3/composites/memsequence.py
index 62d6bbf..3fae91e 100644
--- a/b3/composites/memsequence.py
+++ b/b3/composites/memsequence.py
@@ -12,7 +12,7 @@ class MemSequence(b3.Composite):
     def tick(self, tick):
         idx = tick.blackboard.get('running_child', tick.tree.id, self.id)
 
-        for i in xrange(idx, len(self.children)):
+        for i in range(idx, len(self.children)):
             node = self.children[i]
             status = node._execute(tick)
 
-- 
2.43.0


From 4ef84ccc1e40c1943261bcebb37002eb267319c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:15 +0000
Subject: [PATCH 02/32] fix: RepeatUntilSuccess/Failure with a zero limit
 return ERROR instead of an unbound name

---
 b3/decorators/repeatuntilfailure.py | 2 ++
 b3/decorators/repeatuntilsuccess.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/b3/decorators/repeatuntilfailure.py b/b3/decorators/repeatuntilfailure.py
index 64611a7..0e09cee 100644
--- a/b3/decorators/repeatuntilfailure.py
+++ b/b3/decorators/repeatuntilfailure.py
@@ -16,6 +16,8 @@ class RepeatUntilFailure(b3.Decorator):
             return b3.ERROR
 
         i = tick.blackboard.get('i', tick.tree.id, self.id)
+        status = b3.ERROR
+
         while self.max_loop < 0 or i < self.max_loop:
             status = self.child._execute(tick)
 
diff --git a/b3/decorators/repeatuntilsuccess.py b/b3/decorators/repeatuntilsuccess.py
index 7744859..da3fbd4 100644
--- a/b3/decorators/repeatuntilsuccess.py
+++ b/b3/decorators/repeatuntilsuccess.py
@@ -16,6 +16,8 @@ class RepeatUntilSuccess(b3.Decorator):
             return b3.ERROR
 
         i = tick.blackboard.get('i', tick.tree.id, self.id)
+        status = b3.ERROR
+
         while self.max_loop < 0 or i < self.max_loop:
             status = self.child._execute(tick)
 
-- 
2.43.0


From 03c5837da65b7a7f1fe660d1fd973bf54eb2a480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 03/32] fix: BehaviorTree.load raises AttributeError for an
 unknown node name

---
 b3/core/behaviortree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/b3/core/behaviortree.py b/b3/core/behaviortree.py
index 5acc15b..f7c7eb3 100644
--- a/b3/core/behaviortree.py
+++ b/b3/core/behaviortree.py
@@ -33,7 +33,7 @@ class BehaviorTree(object):
                 cls = getattr(b3, spec['name'])
 
             else:
-                raise AttibuteError('BehaviorTree.load: Invalid node name "%s"'%spec['name'])
+                raise AttributeError('BehaviorTree.load: Invalid node name "%s"'%spec['name'])
 
             node = cls()
             node.id = spec['id'] or node.id
-- 
2.43.0


From 5d3660755e033f15b6a4b3243dd37aaa015d8794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 04/32] fix: BehaviorTree.dump keeps the order of a composite's
 children

---
 b3/core/behaviortree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/b3/core/behaviortree.py b/b3/core/behaviortree.py
index f7c7eb3..45a81cb 100644
--- a/b3/core/behaviortree.py
+++ b/b3/core/behaviortree.py
@@ -94,7 +94,7 @@ class BehaviorTree(object):
             if node.category == b3.COMPOSITE and hasattr(node, 'children'):
                 children = []
                 for c in reversed(node.children):
-                    children.append(c.id)
+                    children.insert(0, c.id)
                     stack.append(c)
                 spec['children'] = children
             elif node.category == b3.DECORATOR and hasattr(node, 'child'):
-- 
2.43.0


From 0fc7a5724520e1126e85e93ca9f3501f9b455395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 05/32] fix: BehaviorTree.dump accepts a decorator without a
 child

---
 b3/core/behaviortree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/b3/core/behaviortree.py b/b3/core/behaviortree.py
index 45a81cb..b9c5029 100644
--- a/b3/core/behaviortree.py
+++ b/b3/core/behaviortree.py
@@ -97,7 +97,7 @@ class BehaviorTree(object):
                     children.insert(0, c.id)
                     stack.append(c)
                 spec['children'] = children
-            elif node.category == b3.DECORATOR and hasattr(node, 'child'):
+            elif node.category == b3.DECORATOR and node.child:
                 stack.append(node.child)
                 spec['child'] = node.child.id
 
-- 
2.43.0


From d7f436d2c9b0551084359c481db94c81be04a661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 06/32] fix: RPY4_N builds a 4x4 matrix (it always raised
 IndexError)

---
 ikbtbasics/pykinsym.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ikbtbasics/pykinsym.py b/ikbtbasics/pykinsym.py
index 43d12db..622c6ec 100644
--- a/ikbtbasics/pykinsym.py
+++ b/ikbtbasics/pykinsym.py
@@ -326,8 +326,7 @@ def RPY3_N(r,p,y):
 
 def RPY4_N(r,p,y):
    R = RPY3_N(r,p,y)
-   #T = np.matrix(np.zeros(16).reshape(4,4))
-   T = np.matrix(np.zeros(4))
+   T = np.matrix(np.zeros(16).reshape(4,4))
    for i in range(0,3):
      for j in range(0,3):
        T[i,j] = R[i,j]
-- 
2.43.0


From 899fa5cda8c912c58c43bf324fc3e059e2b6d7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 07/32] fix: H_inv_N inverts numpy transforms (it always raised
 AttributeError)

---
 ikbtbasics/pykinsym.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ikbtbasics/pykinsym.py b/ikbtbasics/pykinsym.py
index 622c6ec..c832a5f 100644
--- a/ikbtbasics/pykinsym.py
+++ b/ikbtbasics/pykinsym.py
@@ -337,8 +337,8 @@ def RPY4_N(r,p,y):
 def H_inv_N(T):
   R = T[0:3,0:3].T
   P = -R*T[0:3,3]
-  T1 = R.row_join(P)
-  T1 = T1.col_join(sp.Matrix([0,0,0,1]).T)
+  T1 = np.hstack((R, P))
+  T1 = np.vstack((T1, np.matrix([0,0,0,1])))
   return T1
 
 
-- 
2.43.0


From d1188b61925efe5180b4b860b527b31a3e788748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 08/32] fix: robot catalogue offers DZhang and no longer offers
 the undefined Chair6DOF

---
 ikbtfunctions/ik_robots.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ikbtfunctions/ik_robots.py b/ikbtfunctions/ik_robots.py
index 33ace9c..4f44d0c 100644
--- a/ikbtfunctions/ik_robots.py
+++ b/ikbtfunctions/ik_robots.py
@@ -45,15 +45,14 @@ def robot_params(name):
             'MiniDD', 
             'Olson13',
             'Stanford', 
-            'Chair6DOF',  # below not solvable yet
-            'Khat6DOF',    
+            'Khat6DOF',   # below not solvable yet
             'Craig417', 
             'KawasakiRS05L',
             'KawasakiRS007L',
             'Khat6DOF',
             'Raven-II',
             'Wachtveitl', 'Frei13', 'Parkman13', 'Palm13', 'Minder13', 'Mackler13',
-            'Axtman13', 'Srisuan11', 'MiniDD', 'ICP5p5_A21', 'KR16', 'Issue4'
+            'Axtman13', 'Srisuan11', 'MiniDD', 'ICP5p5_A21', 'KR16', 'Issue4',
             'DZhang',
             'JennyGuoSp24']
     
-- 
2.43.0


From 6bf9ff535ddd10d37ac069d1aa84ed453d90dd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 09/32] fix: MiniDD and Sims11 declare one joint type per row
 of the DH table

---
 ikbtfunctions/ik_robots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ikbtfunctions/ik_robots.py b/ikbtfunctions/ik_robots.py
index 4f44d0c..db7aa61 100644
--- a/ikbtfunctions/ik_robots.py
+++ b/ikbtfunctions/ik_robots.py
@@ -365,7 +365,7 @@ def robot_params(name):
             [ -sp.pi/2 ,     0  ,   0   , th_5  ],
             [   0      ,     0  ,   0   ,   0   ]     
             ])
-        vv = [0,1,1,1,1]
+        vv = [0,1,1,1,1,1]
 
         variables = [unknown(d_1), unknown(th_2), unknown(th_3), unknown(th_4), unknown(th_5) ]
 
@@ -427,7 +427,7 @@ def robot_params(name):
             [0.,        0.,         0.,         0.]
             ])
             
-        vv = [0, 0, 1, 1, 1, 1, 1]
+        vv = [0, 0, 1, 1, 1, 1]
         variables = [unknown(d_1), unknown(d_2), unknown(th_3), unknown(th_4), unknown(th_5)]
         params = [l_1, l_2, l_3]
         pvals = {l_1: 5, l_2:2, l_3:4}
-- 
2.43.0


From 10b44d38a68f38d8f9000367eba65f7ca0ae9905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 10/32] fix: Mackler13 declares its offset h as a parameter

---
 ikbtfunctions/ik_robots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ikbtfunctions/ik_robots.py b/ikbtfunctions/ik_robots.py
index db7aa61..c80f342 100644
--- a/ikbtfunctions/ik_robots.py
+++ b/ikbtfunctions/ik_robots.py
@@ -480,8 +480,8 @@ def robot_params(name):
         sp.var('l_3')
         vv = [0, 1, 1, 1, 1, 0]
         variables = [unknown(d_1), unknown(th_2), unknown(th_3), unknown(th_4), unknown(th_5)]
-        params = [l_1, l_2, l_3]
-        pvals = {l_1:2, l_2:2, l_3: 4}
+        params = [h, l_1, l_2, l_3]
+        pvals = {h:1, l_1:2, l_2:2, l_3: 4}
 
     if(name == 'Minder13'):
         # Minder 2013sp
-- 
2.43.0


From 44bf2fb0ff132752558ebb2dfeb75d501ee9c1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 11/32] fix: make_LHS_versions counts the solutions of each
 unknown, not of the last one

---
 ikbtbasics/ik_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index fcf3dfe..014b16a 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -207,7 +207,6 @@ class Robot:
                 unk = n.unknown.name
                 subdict[unk] = self.solListMatrix[row][col]
 
-            nsols = self.solution_nodes[col].unknown.nsolutions
             #LHS: variable version #
             eqns_row = []
             for col in range(nunks): # go through unks in solution order
@@ -218,6 +217,7 @@ class Robot:
                 LHS =  sp.var(self.solution_nodes[col].name + 'v' + str(row+1)) #versions begin w/ 1
                 #LHS = theta_expand(LHS)
                 #print('\n\n   make_LHS_versions:         LHS: ', LHS , '\n\n')
+                nsols = self.solution_nodes[col].unknown.nsolutions   # of this unknown
                 thisSol = self.solution_nodes[col].unknown.solutions[row%nsols]
                 RHS = thisSol.subs(subdict) # substitute versions for this row
                 thiseqn = kc.kequation(LHS,RHS)
-- 
2.43.0


From 75b05585e40244aab700dbf0a015e5a4f0c4f599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 12/32] fix: the first solved unknown uses the version names
 that its equations define

---
 ikbtbasics/ik_classes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index 014b16a..1d7a743 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -262,8 +262,9 @@ class Robot:
 
             else: # first time through
                 #print('first solved unk:', u.details())
-                for vn in u.versionNames:  #start new row for all solns of first solved unk.
-                    solListMatrix.append([vn])
+                for i in range(u_nsols):  #start new row for all solns of first solved unk.
+                    u.LHSversionNames.append(u.name + 'v' + str(i+1))
+                    solListMatrix.append([u.LHSversionNames[i]])
                     #solListMatrix.append([u.name+'v'+'1'])
                     #print('create_solution_sets: creating ', u, solListMatrix)
             #print('---')
-- 
2.43.0


From d98581e82b66643da8ea6d4cf41b6f6ce8f2d95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 13/32] fix: kin_cl names its helper functions independently of
 the import order

---
 ikbtbasics/kin_cl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ikbtbasics/kin_cl.py b/ikbtbasics/kin_cl.py
index c50541b..5bfe705 100644
--- a/ikbtbasics/kin_cl.py
+++ b/ikbtbasics/kin_cl.py
@@ -76,7 +76,7 @@ class kequation:
         tab = ' '
         if align:
             tab = ' &'
-        self.string = theta_expand(sp.latex(self.LHS)) + tab +  '= ' + theta_expand(sp.latex(self.RHS))
+        self.string = hf.theta_expand(sp.latex(self.LHS)) + tab +  '= ' + hf.theta_expand(sp.latex(self.RHS))
 
         tmp = self.string
         #tmp = theta_expand(tmp)
@@ -171,7 +171,7 @@ class unknown(object):
         #get dependencies from the solutions
         n=1
         for sol in self.solutions:
-            self.dependencies.update(get_deps(unknowns,sol))  # add to set of deps
+            self.dependencies.update(hf.get_deps(unknowns,sol))  # add to set of deps
             solname = self.name + 's' + str(n)
             n += 1
             self.solutionNames.append(solname)
-- 
2.43.0


From 4d5db3c0cad7dc9585ad96c468f7688f4e585d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:17 +0000
Subject: [PATCH 14/32] fix: kin_cl resolves Node, Edge and erank independently
 of the import order

---
 ikbtbasics/kin_cl.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ikbtbasics/kin_cl.py b/ikbtbasics/kin_cl.py
index 5bfe705..458051b 100644
--- a/ikbtbasics/kin_cl.py
+++ b/ikbtbasics/kin_cl.py
@@ -23,6 +23,8 @@ import numpy as np
 from ikbtbasics.pykinsym import *
 
 from ikbtbasics.solutionGraphV3 import *
+import ikbtbasics.solutionGraphV3 as sg    # (qualified: the star imports above are circular)
+import ikbtbasics.ik_classes as ikc
 
 import ikbtfunctions.helperfunctions as hf
 
@@ -176,7 +178,7 @@ class unknown(object):
             n += 1
             self.solutionNames.append(solname)
         # set up a node
-        newNode = Node(self)
+        newNode = sg.Node(self)
 
         print(self.details())
         #breakpoint()
@@ -197,7 +199,7 @@ class unknown(object):
         #########################
         # update edge set
         for d in self.dependencies:
-            R.notation_graph_edges.add(Edge(self,d))  #edge(unk, dependency)
+            R.notation_graph_edges.add(sg.Edge(self,d))  #edge(unk, dependency)
 
     def scan(self,MatEqn):        # find list of kequations containing this UNK
         self.eqnlist = []   # reset eqn list
@@ -207,16 +209,16 @@ class unknown(object):
                 eqn = MatEqn.Ts[i,j]
                 if (eqn != 0):
                     if eqn.has(self.symbol):
-                        self.eqnlist.append(kc.kequation(MatEqn.Td[i,j],eqn))
+                        self.eqnlist.append(kequation(MatEqn.Td[i,j],eqn))
 
                 eqn = MatEqn.Td[i,j]
                 if (eqn != 0):
                     if eqn.has(self.symbol):
                         #print "Equation [", eqn.string, "] has ", self.symbol
-                        self.eqnlist.append(kc.kequation(MatEqn.Ts[i,j],eqn))
+                        self.eqnlist.append(kequation(MatEqn.Ts[i,j],eqn))
 
 
-        self.eqnlist = erank(self.eqnlist)  # sort them in place
+        self.eqnlist = ikc.erank(self.eqnlist)  # sort them in place
 
 
 class matrix_equation:
-- 
2.43.0


From d600fe1b250f3006fb3da8cd0b69a93c4224d275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 15/32] fix: cached kinematics take the current parameter
 values and refuse other joint types

---
 ikbtbasics/ik_classes.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index 1d7a743..ccd2b50 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -85,6 +85,9 @@ def kinematics_pickle(rname, dh, constants, pvals, vv, unks, test):
             [m, R, unknowns]  = pickle.load(pick)
             print('Successfully read pre-computed forward kinematics')
             print('pickle contained ', len(unknowns), ' unknowns')
+        if list(m.vv) != list(vv):  # joint types are part of the stored velocity equations
+            stale_pickle()
+        m.pvals.update(pvals)       # numerical values are not: use the current ones
     else:
         #print 'WRONG - quitting, error: ',sys.exc_info()[0]
         #sys.exit
@@ -126,8 +129,11 @@ def check_the_pickle(dh1, dh2):   # check that two mechanisms have identical DH
                 if(dh1[r,c] != dh2[r,c]):
                     flag = True
     if(flag):
+        stale_pickle()
+
+def stale_pickle():
         print('''\n\n -----------------------------------------------------
-                    DH parameters Differ
+                    DH parameters or joint types Differ
                  Pickle file is out of date.
                    please remove it and start again
   -----------------------------------------------------
-- 
2.43.0


From 117d8b03de4ce5f1328b0ef7c971fe103e2bc487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 16/32] fix: the parameters that forward kinematics introduces
 survive loading from the cache

---
 fkOnly.py   | 2 +-
 ikSolver.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fkOnly.py b/fkOnly.py
index de7e3e1..c2b887f 100644
--- a/fkOnly.py
+++ b/fkOnly.py
@@ -113,7 +113,7 @@ testing = False
 print('GOT HERE (after FK): robot name: ', R.name)
 
 R.name = robot
-R.params = params
+R.params = M.params   # (includes cos/sin parameters that forward kinematics introduced)
 R.variables = unknowns
 
 ##   check the pickle in case DH params were changed
diff --git a/ikSolver.py b/ikSolver.py
index 867102a..a874032 100644
--- a/ikSolver.py
+++ b/ikSolver.py
@@ -110,7 +110,7 @@ print('Solver:  unknowns:', unknowns)
 print('GOT HERE (Fk completed): robot name: ', R.name)
 
 R.name = robot
-R.params = params
+R.params = M.params   # (includes cos/sin parameters that forward kinematics introduced)
 
 ##   check the pickle in case DH params were changed
 dhp = M.DH
-- 
2.43.0


From 49dd79e95106dc610c82db3d3d9c195ec6798a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:17 +0000
Subject: [PATCH 17/32] fix: sincos solver rearranges equations that have the
 unknown on the left-hand side

---
 ikbtleaves/sincos_solver.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ikbtleaves/sincos_solver.py b/ikbtleaves/sincos_solver.py
index 6619c03..2f2f305 100644
--- a/ikbtleaves/sincos_solver.py
+++ b/ikbtleaves/sincos_solver.py
@@ -94,6 +94,13 @@ class test_sincos_id(b3.Action):    # tester for sincos ID
       return b3.SUCCESS
       
 
+# sincos_solve reads the coefficients of sin/cos from the RHS only, so an
+#   equation which has the unknown on its LHS must be rearranged first.
+def unknown_on_RHS(e, u):
+    if e.LHS.has(u.symbol):
+        return kequation(sp.S.Zero, e.RHS - e.LHS)
+    return e
+
 class sincos_id(b3.Action):    # action leaf for sincosid 
     
     def tick(self, tick):
@@ -128,7 +135,7 @@ class sincos_id(b3.Action):    # action leaf for sincosid
                 if e.RHS.has(sp.sin(u.symbol)) or e.LHS.has(sp.sin(u.symbol)):   # we found  X = Asin(x)
                     if(self.BHdebug):
                         print('I found an sin() equation to ID: ', e)
-                    u.eqntosolve = e
+                    u.eqntosolve = unknown_on_RHS(e, u)
                     if len(u.solvemethod) > 0:
                         u.solvemethod += ", arcsin"
                     else:
@@ -140,7 +147,7 @@ class sincos_id(b3.Action):    # action leaf for sincosid
                 if e.RHS.has(sp.cos(u.symbol)) or e.LHS.has(sp.cos(u.symbol)):   # we found X = Acos(x)
                     if(self.BHdebug):
                         print('I found an cos() equation to ID: ', e)
-                    u.eqntosolve = e
+                    u.eqntosolve = unknown_on_RHS(e, u)
                     if len(u.solvemethod) > 0:
                         u.solvemethod += ", arccos"
                     else:
-- 
2.43.0


From 95c8a9cc157d5075b0b7f9d93713cb57cc27b590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:53 +0000
Subject: [PATCH 18/32] fix: the assigner and the tangent leaf never offer a
 solved unknown for solving again

---
 ikbtleaves/assigner_leaf.py | 17 +++++++++--------
 ikbtleaves/tan_solver.py    |  2 +-
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/ikbtleaves/assigner_leaf.py b/ikbtleaves/assigner_leaf.py
index a4d478c..02d2104 100644
--- a/ikbtleaves/assigner_leaf.py
+++ b/ikbtleaves/assigner_leaf.py
@@ -37,20 +37,21 @@ class assigner(b3.Action):
         if counter is None:
             counter = 0
             
-        while counter < len(unknowns):
+        # start at the counter and go round once, so that a solved unknown is
+        #   never handed out again while there are unsolved ones
+        for i in range(len(unknowns)):
             #print "current location is %d"%counter
-            curr = unknowns[counter]
-            counter = counter + 1
+            loc = (counter + i) % len(unknowns)
+            curr = unknowns[loc]
             if not curr.solved:
                 print("\n\nAssigner: variable on blackboard: %s"%curr.symbol)
                 #print '\n\n'
-                tick.blackboard.set("counter", counter)
+                tick.blackboard.set("counter", loc + 1)
                 tick.blackboard.set("curr_unk", curr)
                 return b3.SUCCESS
                 
-        if counter >= len(unknowns):
-            counter = 0
-        tick.blackboard.set("counter", counter)
-        tick.blackboard.set("curr_unk", unknowns[counter])
+        # all of them are solved
+        tick.blackboard.set("counter", 0)
+        tick.blackboard.set("curr_unk", unknowns[0])
         return b3.SUCCESS
             #print "current location is %d"%counter
diff --git a/ikbtleaves/tan_solver.py b/ikbtleaves/tan_solver.py
index 177257d..8d5106c 100644
--- a/ikbtleaves/tan_solver.py
+++ b/ikbtleaves/tan_solver.py
@@ -217,7 +217,7 @@ class tan_id(b3.Action):    # action leaf for ID eqns solved by atan2()
             #continue #stop looking at equations for the same unknown                      
         tick.blackboard.set('curr_unk', u)
         tick.blackboard.set('unknowns',unknowns)   # the current list of unknowns
-        if u.solvable_tan:
+        if u.solvable_tan and not u.solved:   # never solve it again
             return b3.SUCCESS
         else:
             return b3.FAILURE
-- 
2.43.0


From b55fbd1e587ed51b24db34e3f9376b5721df7479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 19/32] fix: sincos_solve declines an equation whose argument
 contains the unknown instead of aborting

---
 ikbtleaves/sincos_solver.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ikbtleaves/sincos_solver.py b/ikbtleaves/sincos_solver.py
index 2f2f305..2af0bb8 100644
--- a/ikbtleaves/sincos_solver.py
+++ b/ikbtleaves/sincos_solver.py
@@ -219,9 +219,10 @@ class sincos_solve(b3.Action):    # Solve asincos equation pairs
                 targument = (u.eqntosolve.LHS-B)/A
                 # a solution that still contains its own unknown is not a
                 # solution; this guard is the analogue of the one commented
-                # out in sinANDcos_solver.
-                assert(not targument.has(u.symbol)), \
-                    'sincos_solve (arcsin): solution contains itself: ' + str(targument)
+                # out in sinANDcos_solver.  Decline, as above.
+                if targument.has(u.symbol):
+                    print('sincos_solve (arcsin): solution contains itself: ', targument, ' -- declining')
+                    return b3.FAILURE
                 sol1 = sp.asin( targument  )
                 sol2 = sp.pi - sp.asin( targument  )  
                 u.argument = targument
@@ -251,8 +252,9 @@ class sincos_solve(b3.Action):    # Solve asincos equation pairs
                         B = 0
                             
                     targument = (u.eqntosolve.LHS-B)/A
-                    assert(not targument.has(u.symbol)), \
-                        'sincos_solve (arccos): solution contains itself: ' + str(targument)
+                    if targument.has(u.symbol):
+                        print('sincos_solve (arccos): solution contains itself: ', targument, ' -- declining')
+                        return b3.FAILURE
                     sol1 =   sp.acos( targument  )
                     sol2 = - sp.acos( targument  )  
                     u.argument = targument
-- 
2.43.0


From 499924956649cfc95c30d85998dfb9c5132b1af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:09 +0000
Subject: [PATCH 20/32] fix: sinANDcos and simultaneous-equation leaves reject
 equations whose coefficients contain the unknown

---
 ikbtleaves/sinANDcos_solver.py | 3 ++-
 ikbtleaves/two_eqn_m7.py       | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/ikbtleaves/sinANDcos_solver.py b/ikbtleaves/sinANDcos_solver.py
index 2a7b134..64244da 100644
--- a/ikbtleaves/sinANDcos_solver.py
+++ b/ikbtleaves/sinANDcos_solver.py
@@ -132,7 +132,8 @@ class sinandcos_id(b3.Action):    # action leaf for sincosid
                       print('Sin AND Cos identifying: ', es)
                       print('Aw: ', d[Aw], ' Bw: ', d[Bw], ' Cw: ', d[Cw])
                   
-                  if not d[Cw].has(u.symbol):
+                  # the coefficients must be free of u, too (not x*sin(x) etc.)
+                  if not any(d[k].has(u.symbol) for k in (Aw, Bw, Cw)):
                       u.readytosolve = True
                       u.eqntosolve   = kc.kequation(lhs, es)
                       u.solvemethod += 'sinANDcos'
diff --git a/ikbtleaves/two_eqn_m7.py b/ikbtleaves/two_eqn_m7.py
index 69306c6..071f541 100644
--- a/ikbtleaves/two_eqn_m7.py
+++ b/ikbtleaves/two_eqn_m7.py
@@ -59,8 +59,14 @@ def canonical_second_eqn(u, e1, e2):
     B = e1.coeff(sp.cos(u))
     if A == 0 and B == 0:
         return None
+    # the constant terms (and A, B) must not contain u in any other form
+    C = e1 - A*sp.sin(u) - B*sp.cos(u)
+    if A.has(u) or B.has(u) or C.expand().has(u):
+        return None
     a2 = e2.coeff(sp.cos(u))
     b2 = -e2.coeff(sp.sin(u))
+    if (e2 - a2*sp.cos(u) + b2*sp.sin(u)).expand().has(u):
+        return None
     if a2 == A and b2 == B:
         return e2
     if a2 == -A and b2 == -B:
-- 
2.43.0


From 8401acce85346ce1bdce55137fd23ad062dc73a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:51 +0000
Subject: [PATCH 21/32] fix: sum-of-angles scan records a new variable once and
 substitutes only sums of unknowns

---
 ikbtbasics/ik_classes.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index ccd2b50..39c21e9 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -399,13 +399,9 @@ class Robot:
 
                     # simplify LHS
 
+                    # (sum_of_angles_sub() records new variables and their definitions itself)
                     lhs, newj, newe = sum_of_angles_sub(self, lhs, variables)
 
-                    if newj:
-                        variables.append(newj)
-                    if newe:
-                        self.kequation_aux_list.append(newe)
-
                     # simplify RHS
                     rhs, newj, newe= sum_of_angles_sub(self, rhs, variables)
 
@@ -470,10 +466,12 @@ def sum_of_angles_sub(R, expr, variables):
             else:
                 varlist.append(d[k1])
         #print 'varlist: ', varlist
-        if len(varlist) == 2:
-            found2 = True
-        if len(varlist) == 3:
-            found3 = True
+        # only a sum of unknowns can become a new unknown
+        #   (not e.g. th_2-th_3, or th_2 plus a constant parameter)
+        if not all(any(u.symbol == v for u in variables) for v in varlist):
+            continue
+        found2 = len(varlist) == 2
+        found3 = len(varlist) == 3
 
         newjoint = None
         tmpeqn = None
-- 
2.43.0


From 3b01a31966ed43b99923b5d8e8203e5b83acac96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:51 +0000
Subject: [PATCH 22/32] fix: sum_id uses the sum-of-angles substitution
 (find_xy does not exist)

---
 ikbtleaves/sum_id.py | 89 ++++----------------------------------------
 1 file changed, 7 insertions(+), 82 deletions(-)

diff --git a/ikbtleaves/sum_id.py b/ikbtleaves/sum_id.py
index cd88b98..534b99b 100644
--- a/ikbtleaves/sum_id.py
+++ b/ikbtleaves/sum_id.py
@@ -40,88 +40,13 @@ class sum_id(b3.Action):   ##  we should change this name since its a transform
                 
                 
         for matr_equ in R.mequation_list:
-            
-            Tmatrix = matr_equ
-            
-            #print 'sum_transform.py: working on ', Tmatrix
-            #Tmatrix_squeeze = sp.simplify(notation_squeeze(Tmatrix))
-            
-            #if(self.BHdebug):
-                ##print 'sum of angles transform: input: '
-                ##sp.pprint(matr_equ.Ts)
-                ###print out the squeezed form
-                #print 'sum of angles transform: squeezed test input:'
-                #sp.pprint(Tmatrix_squeeze)
-                
-            unkn_sums_sym = set() #keep track of joint variable symbols
-            
-            thx = sp.Wild('thx')   # sympy wildcards for template matching
-            thy = sp.Wild('thy')
-            sgn = sp.Wild('sgn')
-            
-            success_flag = False
-            
-            Tmlist = Tmatrix.get_kequation_list() # convert to list of equns
-            for Teqn in Tmlist:   
-                for expr in [Teqn.LHS, Teqn.RHS]:
-                        # need new ways to identify thx +/- thy
-                        # notation_squeeze does not pick up - cases
-                        #eLHS = expr.LHS
-                        #eRHS = expr.RHS
-    
-                        
-                        #print 'sum_of_angles_ID: ', expr 
-                    
-                        sub_sin = expr.find(sp.sin(thx + sgn * thy)) #returns a subset of expressions with the query pattern, this finds sin(thx) too
-                        sub_cos = expr.find(sp.cos(thx + sgn * thy))
-                            
-                        found = False
-                        while len(sub_sin) > 0 and not found:
-                            sin_expr = sub_sin.pop()
-                            d = sin_expr.match(sp.sin(thx + sgn * thy))
-                            if d[thx] != 0 and d[sgn] != 0 and d[thy] != 0: #has to be joint variable
-                                found = True
-
-                            
-                        while len(sub_cos) > 0 and not found:
-                            cos_expr = sub_cos.pop()
-                            d = cos_expr.match(sp.cos(thx + sgn * thy))
-                            if d[thx] != 0 and d[sgn] != 0 and d[thy] != 0:
-                                found = True
-                            
-                        if found:
-                            print('- - - - - - - - >>>> test: found:', expr)
-                            success_flag = True
-                            th_xy = find_xy(d[thx], d[thy])
-                            #if not exists in the unknown list (this requires proper hashing), create variable
-                            if th_xy not in unkn_sums_sym:
-                                print("found NEW 'joint' (updated) (sumofangle) variable: ")
-                                print(th_xy)
-                                #  try moving soa equation to Tm.auxeqns
-                                unkn_sums_sym.add(th_xy) #add into the joint variable set
-                                newjoint = unknown(th_xy)
-                                # extract subscripts from SOA variables to get combined variable
-                                #   ([3:] eliminates 'th_' from string name)
-                                #print('test: .n ',str(d[thx])[3:], str(d[thy])[3:])
-                                newjoint.n = int(str(d[thx])[3:]+str(d[thy])[3:]) # store new subscript
-                                #newjoint.joint_eq = d[thx] + d[sgn] * d[thy]
-                                alreadyThere = False
-                                for u in unknowns:
-                                    if u.n == newjoint.n:
-                                        print('>>> Skipping a duplicate variable: Th', newjoint.n)
-                                        alreadyThere=True
-                                if not alreadyThere:
-                                    print('>>>>     appending variable to unknowns: ', newjoint)
-                                    unknowns.append(newjoint) #add it to unknowns list
-                                tmpeqn = kequation(th_xy, d[thx] + d[sgn] * d[thy])
-                                print('sumofanglesT: appending ', tmpeqn)
-                                # store the SOA aux equation 
-                                R.kequation_aux_list.append(tmpeqn)
-                                print(d[thx] + d[sgn]*d[thy])
-                                #substitute all thx +/- thy expression with th_xy
-                                matr_equ.Ts = matr_equ.Ts.subs(d[thx] + d[sgn] * d[thy], th_xy)
-                                matr_equ.Td = matr_equ.Td.subs(d[thx] + d[sgn] * d[thy], th_xy) 
-        
+            # substitute sums of unknown angles on both sides
+            #   (records new variables in unknowns and their definitions in R)
+            for i in [0,1,2]:   # only first three rows are interesting
+                for j in [0,1,2,3]:
+                    matr_equ.Td[i,j], newj, newe = sum_of_angles_sub(R, matr_equ.Td[i,j], unknowns)
+                    matr_equ.Ts[i,j], newj, newe = sum_of_angles_sub(R, matr_equ.Ts[i,j], unknowns)
+
         tick.blackboard.set('Robot', R)
 
         ##############   DEBUG
-- 
2.43.0


From 5a47a21ac5246ab984151e25050d08e5e2ce8903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:24 +0000
Subject: [PATCH 23/32] fix: generated Python code compiles (parameter
 declarations, function name, print calls, missing values)

---
 ikbtfunctions/output_python.py | 38 +++++++++++++++-------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/ikbtfunctions/output_python.py b/ikbtfunctions/output_python.py
index 8853fbf..02a290a 100644
--- a/ikbtfunctions/output_python.py
+++ b/ikbtfunctions/output_python.py
@@ -90,12 +90,10 @@ pi = np.pi
 
     print('#\n#      Robot Parameters \n#',file=f)
     tmp = '\n'
-    if(Robot.Mech.pvals != {}):  # if we have numerical values stored
-        for p in Robot.params:
-            val = str(Robot.Mech.pvals[p])
-            tmp += str(p) + ' = ' + val + '\n'
-    else:                        # no stored numerical values
-        for p in Robot.params:
+    for p in Robot.params:
+        if p in Robot.Mech.pvals:  # if we have a numerical value stored
+            tmp += str(p) + ' = ' + str(Robot.Mech.pvals[p]) + '\n'
+        else:                      # no stored numerical value
             tmp += str(p) + ' = XXXXX    # deliberate undeclared error!  USER needs to give numerical value \n'
     par_decl_str = tmp
 
@@ -177,8 +175,6 @@ from math import asin
 pi = np.pi
 
 '''
-    fixed_name = Robot.name.replace(r'_', r'\_')  # this is for LaTex output
-    fixed_name = fixed_name.replace('test: ','')
     orig_name  = Robot.name.replace('test: ', '')
 
     DirName = 'CodeGen/Python/'
@@ -189,14 +185,13 @@ pi = np.pi
     print(importString, file=f)
 
     # parameter Declarations (a_3, d_5, etc).
+    #   (inside the function, so indented)
     tmp = '\n'
-    if(Robot.Mech.pvals != {}):  # if we have numerical values stored
-        for p in Robot.params:
-            val = str(Robot.Mech.pvals[p])
-            tmp += str(p) + ' = ' + val + '\n'
-    else:                        # no stored numerical values
-        for p in Robot.params:
-            tmp += str(p) + ' = XXXXX    # deliberate undeclared error!  USER needs to give numerical value \n'
+    for p in Robot.params:
+        if p in Robot.Mech.pvals:  # if we have a numerical value stored
+            tmp += '    ' + str(p) + ' = ' + str(Robot.Mech.pvals[p]) + '\n'
+        else:                      # no stored numerical value
+            tmp += '    ' + str(p) + ' = XXXXX    # deliberate undeclared error!  USER needs to give numerical value \n'
     par_decl_str = tmp
 
 
@@ -206,7 +201,8 @@ pi = np.pi
 
     indent = '    ' # 4 spaces
 
-    funcname = 'ikin_'+fixed_name 
+    # function name: a valid python identifier
+    funcname = 'ikin_' + re.sub(r'\W', '_', orig_name)
     print('''
 # Auto Generated Code to solve the unknowns
 #        parameter:  T   4x4 numerical target for T06
@@ -214,7 +210,7 @@ pi = np.pi
 ''', file=f)
     print('def', funcname +'(T):', file=f) # no indent
     print(indent+'if(T.shape != (4,4)):', file=f)
-    print(indent*2 + 'print ( "bad input to "+funcname'+')', file=f)
+    print(indent*2 + 'print ( "bad input to ' + funcname + '")', file=f)
     print(indent*2 + 'quit()', file=f)
     print('''#define the input vars 
     r_11 = T[0,0]
@@ -380,11 +376,11 @@ if __name__ == "__main__":
     list = ''' + funcname + '''(T1)
 
     i = 0
-    for sol in list:
-        print ''
-        print 'Solution ', i
+    for sol in list or []:    # (False if there is no solution)
+        print('')
+        print('Solution ', i)
         i+=1
-        print sol
+        print(sol)
 
 
     ''', file=f)
-- 
2.43.0


From 27aff22f53b2ec1140b2ba788756a9a90e7cdce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:24 +0000
Subject: [PATCH 24/32] fix: generated Python code assigns every version once
 and returns False for unreachable poses

---
 ikbtfunctions/output_python.py | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/ikbtfunctions/output_python.py b/ikbtfunctions/output_python.py
index 02a290a..99cb7aa 100644
--- a/ikbtfunctions/output_python.py
+++ b/ikbtfunctions/output_python.py
@@ -264,22 +264,11 @@ pi = np.pi
             # get the solution equation version
             solEqnVer = Robot.FinalEqnMatrix[rowindex][colindex]
             print('Python Output: Solution Equation Version: ', solEqnVer)
-            if re.search('asin', str(solEqnVer.RHS)) or re.search('acos', str(solEqnVer.RHS)):
-                print ('  Found asin/acos solution ...', solEqnVer.LHS , ' "=" ',solEqnVer.RHS)
-                tmp = re.search('\((.*)\)',str(solEqnVer.RHS))
-                print(indent + 'if (solvable_pose and abs', tmp.group(0), ' > 1):', file=f)
-                print(indent*2 + 'solvable_pose = False', file=f)
-                print(indent + 'else:', file=f)
-                tmp = str(solEqnVer.LHS) + ' = ' + str(solEqnVer.RHS)
-                print(indent*2 + tmp, file=f)
-            if re.search('atan', str(solEqnVer.RHS)):
-                print('  Found atan2 solution ...', solEqnVer.LHS , ' "=" ',solEqnVer.RHS)
-                tmp = re.search('\((.*)\)',str(solEqnVer.RHS))
-                tmp = str(solEqnVer.LHS) + ' = ' + str(solEqnVer.RHS)
-                print(indent + tmp, file=f)
-            if node.solvemethod == 'algebra':
-                print('  Found algebra solution ... ' , solEqnVer.LHS , ' = ', solEqnVer.RHS)
-                print(indent + str(solEqnVer.LHS) + ' = ' + str(solEqnVer.RHS), file=f)
+            # the arguments of asin and acos must be in range, or the pose is not reachable
+            for fcn in sorted(solEqnVer.RHS.atoms(sp.asin, sp.acos), key=lambda e: (len(str(e)), str(e))):
+                print(indent + 'if (abs(' + str(fcn.args[0]) + ') > 1):', file=f)
+                print(indent*2 + 'return(False)', file=f)
+            print(indent + str(solEqnVer.LHS) + ' = ' + str(solEqnVer.RHS), file=f)
 
     print('''
 ##################################
-- 
2.43.0


From a96985462afbc09ea77f68e7a42d4550cc9718cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:15 +0000
Subject: [PATCH 25/32] fix: generated C++ code compiles, assigns every version
 once and rejects poses out of asin/acos range

---
 ikbtfunctions/output_cpp.py | 119 ++++++++++++------------------------
 1 file changed, 39 insertions(+), 80 deletions(-)

diff --git a/ikbtfunctions/output_cpp.py b/ikbtfunctions/output_cpp.py
index 771d17b..d16410d 100644
--- a/ikbtfunctions/output_cpp.py
+++ b/ikbtfunctions/output_cpp.py
@@ -68,6 +68,34 @@ def output_cpp_code(Robot, solution_groups):
     c.level = 0
     c.indent = '    '
 
+    ###################
+    #   Variable and parameter declarations
+
+    nlist = Robot.solution_nodes
+
+    # all variables assigned below (each version of each solved unknown)
+    sol_vars = []
+    for row in Robot.FinalEqnMatrix:
+        for eqn in row:
+            if str(eqn.LHS) not in sol_vars:
+                sol_vars.append(str(eqn.LHS))
+
+    #  Variable Declarations
+    var_decl_str = ''
+    if len(sol_vars) > 0:
+        var_decl_str = 'double ' + ', '.join(sol_vars) + ';'
+
+    # parameter Declarations
+    tmp = '\n'
+    for p in Robot.params:   # other DH dimensional params (l_3 etc)
+        tmp += 'double '+str(p) + ' = XXXXX ; // deliberate undeclared error!  USER needs to give numerical value\n'
+    par_decl_str = tmp
+
+    # size of the solution list (at least 64 solutions of 6 variables)
+    nrows = max([64, len(solution_groups)])
+    ncols = max([6] + [len(g) for g in solution_groups])
+    dims = '[' + str(nrows) + '][' + str(ncols) + ']'
+
     c.line('''//
 //  C++ inverse kinematic equations for ''' + fixed_name + '''
 
@@ -80,41 +108,17 @@ double pi = 3.1415926;
 
 // ikin_Wrists modifies solution_list in-place and
 // returns 1 for valid solutions and 0 for no solutions
-int ikin(double T[4][4], double solution_list[64][6]);
+int ikin(double T[4][4], double solution_list''' + dims + ''');
 
 ''')
 
-    ###################
-    #   Variable and parameter declarations
-
-    sol_vars = set() #all variables used in solutions
-    # now handled outside, in ikSolver
-    #solution_groups = mtch.matching_func(Robot.notation_collections, Robot.solution_nodes)
-    for s in solution_groups:
-        sol_vars.update(s)
-
-    #  Variable Declarations
-    tmp = 'double'
-    for v in sol_vars:
-        tmp += ' ' + str(v) + ','
-
-    var_decl_str = tmp[:-1] + ';'   # drop trailing comma and end the line
-
-    # parameter Declarations
-    tmp = '\n'
-    for p in Robot.params:   # other DH dimensional params (l_3 etc)
-        tmp += 'double '+str(p) + ' = XXXXX ; \\ deliberate undeclared error!  USER needs to give numerical value\n'
-    par_decl_str = tmp
-
-    nlist = Robot.solution_nodes
-
     indent = '    ' # 4 spaces
 
     funcname = 'ikin'
     c.line('int main()')
     c.push()
     c.line('double T[4][4] = { {1,0,0,0},{0,1,0,0},{0,0,1,0},{0,0,0,1}, };' )
-    c.line('double sol_list[64][6] = {0};  // list of solutions')
+    c.line('double sol_list' + dims + ' = {0};  // list of solutions')
     c.line('if('+funcname+'(T, sol_list))')
     c.push()
     c.line('std::cout << sol_list;')
@@ -129,7 +133,7 @@ int ikin(double T[4][4], double solution_list[64][6]);
     # ik function
     c.line('\n// Code to solve the unknowns ')
     c.line('\n\n// Declarations')
-    c.line('int ' + funcname + '(double T[4][4], double solution_list[64][6] )')  # no indent
+    c.line('int ' + funcname + '(double T[4][4], double solution_list' + dims + ' )')  # no indent
     c.push()
     c.line('''\n//define the input vars
 double r_11 = T[0][0];
@@ -177,62 +181,17 @@ int False = 0;
             print('Cpp Output Gen: Solution Equation Version: ', solEqnVer)
             c.line('\n// solution '+str(solno))
             solno += 1
-            solrhs = str(solEqnVer.RHS)
-            # detect arcsin() or arccos()
-            #
-            #  BH   21-Sept
-            #  This code needs a serious refactor.  When solution is for example:
-            #    th5_ijk = arcsin(x) + atan2(y1,x1)
-            #       (here 'x' is a complicated expression)
-            #  then it is important that the generated code will test  -1 < x < +1
-            #  if this test fails the pose is unreachable and arcsin fails.
-            #
-            #
-            trig = False
-            print('\n\nCpp Output Gen: Studying node: ', node.symbol, ' solution ', solno)
-            print('solvemethod: ', node.solvemethod)
-            print(' LHS: ', str(solEqnVer.LHS))
-            print(' RHS: ', solrhs)
-            print('argument: ', node.argument)
-            print('\n\n')
-
             c.line('// solvemethod: ' + node.solvemethod )
             c.line('//    argument: ' + str(node.argument )  )
 
-            if(node.solvemethod == 'arcsin' or node.solvemethod == 'arccos'):
-               trig = True
-
-            if(trig):
-               print('  Found asin/acos solution ...', solEqnVer.LHS , ' "=" ',solEqnVer.RHS)
-               c.line('// Arcsin() or Arccos() based solution:')
-               c.line('argument = ' + str(node.argument))
-               c.line('if (solvable_pose && fabs(argument) > 1)')
-               c.push()
-               c.line('solvable_pose = False; ')
-               c.pop()
-               c.line('else if (solvable_pose)')
-               c.push()        #  bugus    (here)
-               c.line(str(solEqnVer.LHS) + ' = '+node.solvemethod+'(argument);' )
-               c.pop()
-
-            if ((not trig) and 'atan2(y,x)' in node.solvemethod):
-                c.line(str(solEqnVer.LHS) + ' = ' + solrhs + ';')
-
-            if 'algebra' in node.solvemethod:
-                c.line(str(solEqnVer.LHS) + ' = ' + solrhs + ';')
-
-            if 'x2z2' in node.solvemethod:
-                print('x2z2 output: ', node.argument)
-                c.line(str(solEqnVer.LHS) + ' = ' + solrhs + ';')
-
-
-
-            if 'simultaneous eqn' in node.solvemethod:
-                print('x2z2 output: ', node.argument)
-                c.line(str(solEqnVer.LHS) + ' = ' + solrhs + ';')
-
-
-
+            # the arguments of asin and acos must be in range, or the pose is not reachable
+            for fcn in sorted(solEqnVer.RHS.atoms(sp.asin, sp.acos), key=lambda e: (len(str(e)), str(e))):
+                c.line('argument = ' + sp.ccode(fcn.args[0]) + ';')
+                c.line('if (fabs(argument) > 1)')
+                c.push()
+                c.line('return(False);')
+                c.pop()
+            c.line(str(solEqnVer.LHS) + ' = ' + sp.ccode(solEqnVer.RHS) + ';')
 
     c.line('''
 //##################################
-- 
2.43.0


From 2c7692543700f149d0fe67ade4a06a25586c13e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:15 +0000
Subject: [PATCH 26/32] fix: output generators cope with a robot whose unknowns
 were not solved

---
 ikbtbasics/ik_classes.py      |  2 +-
 ikbtfunctions/output_latex.py | 12 +++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index 39c21e9..d7e697e 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -205,7 +205,7 @@ class Robot:
     # class Robot
     def make_LHS_versions(self):
         nvers = len(self.solListMatrix)  # n versions
-        nunks = len(self.solListMatrix[0])  # n solved unknowns (cols)
+        nunks = len(self.solution_nodes)  # n solved unknowns (cols)
         for row in range(nvers): # go through versions
             # get subs dict for this row
             subdict = {}
diff --git a/ikbtfunctions/output_latex.py b/ikbtfunctions/output_latex.py
index 88f7781..1e78479 100644
--- a/ikbtfunctions/output_latex.py
+++ b/ikbtfunctions/output_latex.py
@@ -147,7 +147,12 @@ def output_latex_solution(Robot, variables, groups):
     unksection = r'\section{Unknown Variables: }'+eol
 
     # introduce the unknowns and the solution ORDER
-    unksection += r'''The unknown variables for this robot are (in solution order): ''' +eol+r'\begin{enumerate}'+eol
+    unksection += r'''The unknown variables for this robot are (in solution order): ''' +eol
+
+    if len(Robot.solution_nodes) == 0:   # latex does not allow a list without items
+        unksection += 'none of the unknowns were solved.'+eol
+    else:
+        unksection += r'\begin{enumerate}'+eol
 
     for n in Robot.solution_nodes:
         unk = n.symbol
@@ -158,7 +163,8 @@ def output_latex_solution(Robot, variables, groups):
         print('output_latex: latex unknown v2:',tmp)
         unksection += eol+r'\item {'+tmp+'}'
 
-    unksection += r'\end{enumerate}'+eol
+    if len(Robot.solution_nodes) > 0:
+        unksection += r'\end{enumerate}'+eol
 
     LF.sections.append(unksection.splitlines())
 
@@ -322,7 +328,7 @@ The following are the sets of joint solutions (poses) for this manipulator:
 
 
     ####################  Solution sets Table form
-    ncols = len(list(Robot.solutionSet)[0])
+    ncols = max(1, len(Robot.solution_nodes))  # nothing may have been solved
     colstr = '|' + 'l|'*ncols
     tablestr = r'\section{Solution Set v3} \begin{tabular}{' + colstr + r'}\hline' + eol
     for s in Robot.solutionSet:
-- 
2.43.0


From 0a0a8499e20d50c579c7ad98ee84eda200cff5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:42 +0000
Subject: [PATCH 27/32] fix: generated forward kinematics code declares joint
 variables without a subscript

---
 ikbtfunctions/output_python.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/ikbtfunctions/output_python.py b/ikbtfunctions/output_python.py
index 99cb7aa..a30fb46 100644
--- a/ikbtfunctions/output_python.py
+++ b/ikbtfunctions/output_python.py
@@ -108,20 +108,19 @@ pi = np.pi
     for v in Robot.variables:
         ss = str(v).split('_')   # get joint subscript(s)
         print('Variabl: SofA: ', str(v), ss)
-        if len(ss) > 1:
-            if len(ss[1]) > 1:  # we have a sum_of_angles
-                print('Sum of ang found in variable: ', str(v))
-                subs = [*ss[1]] # make list of
-                soa = str(v) + ' = ' # e.g. 'th_23 = '
-                for s in subs:
-                    print('Debug subscript s:',ss, s)
-                    # find var with this subscript:
-                    for v1 in Robot.variables:
-                        if s in str(v1) and len(str(v1).split('_')[1]) == 1: # avoid soa subscripts
-                            soa += f' {str(v1)} +'
-                print(indent + soa[:-1], file=f)
-            else:
-                print(indent + f'{str(v)} = 1.0   # 1.0= dummy value',file=f)
+        if len(ss) > 1 and len(ss[1]) > 1:  # we have a sum_of_angles
+            print('Sum of ang found in variable: ', str(v))
+            subs = [*ss[1]] # make list of
+            soa = str(v) + ' = ' # e.g. 'th_23 = '
+            for s in subs:
+                print('Debug subscript s:',ss, s)
+                # find var with this subscript:
+                for v1 in Robot.variables:
+                    if s in str(v1) and len(str(v1).split('_')[1]) == 1: # avoid soa subscripts
+                        soa += f' {str(v1)} +'
+            print(indent + soa[:-1], file=f)
+        else:
+            print(indent + f'{str(v)} = 1.0   # 1.0= dummy value',file=f)
 
     funcname = 'Fkin_'+orig_name
     print('''
-- 
2.43.0


From eccf739a3269b2db9a490755dac6fa434efd1322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:19 +0000
Subject: [PATCH 28/32] fix: debugging output of tan_id neither fails on
 unmatched equations nor replaces the current unknown

---
 ikbtleaves/tan_solver.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ikbtleaves/tan_solver.py b/ikbtleaves/tan_solver.py
index 8d5106c..5db37b9 100644
--- a/ikbtleaves/tan_solver.py
+++ b/ikbtleaves/tan_solver.py
@@ -124,7 +124,7 @@ class tan_id(b3.Action):    # action leaf for ID eqns solved by atan2()
                     print("\nsin equ: ")
                     print(u.eqntosolve)
                     print("\nsin(): coefficients are : ")
-                    print(d1[Awx] )
+                    print(d1 and d1[Awx] )   # (d1 is None if there was no match)
                     print('---')
                 for ec in cos_eqn:  
                     ectst = (ec.RHS - ec.LHS).collect(terms)  # get all the cos(th)s collected
@@ -133,7 +133,7 @@ class tan_id(b3.Action):    # action leaf for ID eqns solved by atan2()
                         print("\ncos equ: ")
                         print(u.secondeqn)
                         print("\ncos(): coefficients")
-                        print(d2[Cwx]          )
+                        print(d2 and d2[Cwx] )
                     
                     # A failed match is NOT an error -- it means this particular
                     # (sin eqn, cos eqn) pair is not of the form this leaf
@@ -201,12 +201,12 @@ class tan_id(b3.Action):    # action leaf for ID eqns solved by atan2()
                         e1tmp = u.eqntosolve.RHS + u.eqntosolve.LHS 
                         e2tmp = u.secondeqn.RHS + u.secondeqn.LHS
                         print('                       ', u.eqntosolve, '  (', count_unknowns(unknowns, e1tmp), 'unks)')
-                        for u in get_unknowns(unknowns, e1tmp):
-                            print(u.symbol, )
+                        for unk in get_unknowns(unknowns, e1tmp):   # (u is the current unknown)
+                            print(unk.symbol, )
                         print('')
                         print('                       ', u.secondeqn, '  (', count_unknowns(unknowns, e2tmp), 'unks)')
-                        for u in get_unknowns(unknowns, e1tmp):
-                            print(u.symbol, )
+                        for unk in get_unknowns(unknowns, e1tmp):   # (u is the current unknown)
+                            print(unk.symbol, )
                         print('')
                         print('')
                     if found:
-- 
2.43.0


From 4827240b99fee34ac53a00ee4d34acf53c3ad761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:06 +0000
Subject: [PATCH 29/32] fix: building the version equations again starts anew
 instead of appending them a second time

---
 ikbtbasics/ik_classes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index d7e697e..20a5470 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -206,6 +206,8 @@ class Robot:
     def make_LHS_versions(self):
         nvers = len(self.solListMatrix)  # n versions
         nunks = len(self.solution_nodes)  # n solved unknowns (cols)
+        self.FinalEqnMatrix = []  # start anew: every report generates the versions
+        self.nversions = 0
         for row in range(nvers): # go through versions
             # get subs dict for this row
             subdict = {}
-- 
2.43.0


From 0cf4cef3e1b03a5e4b2af77d37025fa1a9bcb248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:06 +0000
Subject: [PATCH 30/32] fix: computing the forward kinematics again does not
 add the twist parameters twice

---
 ikbtbasics/kin_cl.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ikbtbasics/kin_cl.py b/ikbtbasics/kin_cl.py
index 458051b..5f88ae4 100644
--- a/ikbtbasics/kin_cl.py
+++ b/ikbtbasics/kin_cl.py
@@ -293,8 +293,9 @@ class mechanism:
                 tmpvc = sp.var(f'ca{i}')  # create new parameter for cos(al)-> ca1, ca2, etc
                 tmpvs = sp.var(f'sa{i}')  # create new parameter for sin(al)
 
-                self.params.append(tmpvc)   #
-                self.params.append(tmpvs)   #
+                if tmpvc not in self.params:   # only once, also if computed again
+                    self.params.append(tmpvc)   #
+                    self.params.append(tmpvs)   #
                 self.pvals[tmpvc] = f'np.cos({alpha_i})'
                 self.pvals[tmpvs] = f'np.sin({alpha_i})'
 
-- 
2.43.0


From 0a3554abb224bdb2fa9613a8adbce554ce1ac012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:06 +0000
Subject: [PATCH 31/32] fix: foward_kin.py gives all six joint types

---
 foward_kin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foward_kin.py b/foward_kin.py
index 7fe9f28..c69672f 100644
--- a/foward_kin.py
+++ b/foward_kin.py
@@ -79,7 +79,7 @@ dh = sp.Matrix([
     [ -sp.pi/2 ,     0  ,   0   , th_5  ],
     [   0      ,     0  ,   0   ,   0   ]     
     ])
-vv = [0,1,1,1,1]
+vv = [0,1,1,1,1,1]
 
 variables = [unknown(d_1), unknown(th_2), unknown(th_3), unknown(th_4), unknown(th_5) ]
 
-- 
2.43.0


From bbbb1c3eb67aa2d6f255e6d150ff3048b9a0ff93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:07 +0000
Subject: [PATCH 32/32] fix: fk_EE543.py displays the Jacobian with respect to
 the joint rates

---
 fk_EE543.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fk_EE543.py b/fk_EE543.py
index 3ae85c8..cf4f870 100644
--- a/fk_EE543.py
+++ b/fk_EE543.py
@@ -108,4 +108,4 @@ print(' v55')
 sp.pprint(notation_squeeze(m.v_55)) 
 
 
-print(ManipJacobian_S(m.v_33, m.w_33, [th_1,th_2, th_3]))
+print(ManipJacobian_S(m.v_33, m.w_33, m.qdot[0:3]))   # with respect to the joint rates
-- 
2.43.0

