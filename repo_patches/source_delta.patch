From 7a7b6223f5221aff27141dfce28222f98dff559b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:10 +0000
Subject: [PATCH 01/32] fix: rotate the atomic basis with the operation itself,
 not its inverse

The basis vectors are rows, so multiplying them by the rotation from the
right applied the inverse rotation while the lattice, the shifts and the
arrows were rotated with the operation itself. Parents with a basis and a 3-
or 4-fold axis got a wrong permutation group, or none at all (exit) when the
origin isn't on an atom.
---
 phenum/HNFs.py        |  2 +-
 phenum/grouptheory.py | 13 ++++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/phenum/HNFs.py b/phenum/HNFs.py
index ffed7b9..e2154fd 100644
--- a/phenum/HNFs.py
+++ b/phenum/HNFs.py
@@ -151,7 +151,7 @@ def get_HNFs(n,pLV,base_vecs,LatDim,eps_=None):
                  .format(" ".join([str(p) for p in temp_basis[i]]),
                          " ".join([str(p) for p in b_vecs])))
         
-    base_perms = _get_dvector_permutations(pLV,base_vecs,LatDim,eps)
+    base_perms = _get_dvector_permutations(pLV,base_vecs,LatDim,eps,inverse=False)
 
     (hnfs,fix_ops,rp_list,degens) = remove_duplicate_lattices(hnfs,pLV,base_vecs,
                                                                    base_perms,eps_=eps)
diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index 0367b06..3ad087b 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -408,7 +408,7 @@ def SmithNormalForm(HNF):
         
     return(M,A,B)
 
-def _get_dvector_permutations(par_lat,bas_vecs,LatDim,eps):
+def _get_dvector_permutations(par_lat,bas_vecs,LatDim,eps,inverse=True):
     """This routine applies the symmetry operations of the parent lattice
     to the interior points (i.e., the d-set) to see which ones are
     equivalent. Labelings of the lattice points that are contain
@@ -421,6 +421,9 @@ def _get_dvector_permutations(par_lat,bas_vecs,LatDim,eps):
         bas_vacs (list): A 2D array containing the basis vectors for the cell.
         LatDim (int): 2 if a 2D case 3 if 3D.
         eps (float): Finite precesion tolerance.
+        inverse (bool, optional): True to rotate the basis vectors by the inverse of each
+          operation, False to rotate them by the operation itself (as the lattice, the
+          shifts and the arrows are).
 
     Returns:
         drp_list (list): The basis vector permutations.
@@ -452,7 +455,11 @@ def _get_dvector_permutations(par_lat,bas_vecs,LatDim,eps):
             temp_b = bas_vecs[0]
         else:
             temp_b = bas_vecs
-        rd_rot = np.matmul(temp_b,rot[iOp]).tolist()
+        # the basis vectors are rows
+        if inverse:
+            rd_rot = np.matmul(temp_b,rot[iOp]).tolist()
+        else:
+            rd_rot = np.matmul(temp_b,np.transpose(rot[iOp])).tolist()
 
         if n_d > 1:
             rd_shift = [shift[iOp]]*n_d
@@ -744,7 +751,7 @@ def get_sym_group(par_lat,bas_vecs,HNF,LatDim,arrows=True):
                  .format(" ".join([str(p) for p in temp_basis[i]]),
                          " ".join([str(p) for p in b_vecs])))
 
-    par_rp_list = _get_dvector_permutations(par_lat,bas_vecs,LatDim,eps)
+    par_rp_list = _get_dvector_permutations(par_lat,bas_vecs,LatDim,eps,inverse=False)
 
     a_type = [1]*len(bas_vecs)
     
-- 
2.43.0


From aaafcce547a06bea7fead6fce8527fa5b87187c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:10 +0000
Subject: [PATCH 02/32] fix: don't require an arrow permutation when no arrows
 are enumerated

The directions +-x,+-y,+-z aren't mapped onto each other by the 3- and 6-fold
axes of a hexagonal lattice, so the group generation exited for supercells of
hexagonal lattices even when there are no arrows in the system.
---
 phenum/enumeration.py | 3 ++-
 phenum/grouptheory.py | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index 4b73320..4132de6 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -83,7 +83,8 @@ def _polya_out(args):
         for thnf in hnfs:
             hnf = [thnf[0][0],thnf[1][0],thnf[1][1],thnf[2][0],thnf[2][1],thnf[2][2]]
             out.write("  {0: <26}".format(' '.join(map(str, hnf))))
-            sym_g = get_sym_group(params["lat_vecs"],params["basis_vecs"],thnf,3)
+            sym_g = get_sym_group(params["lat_vecs"],params["basis_vecs"],thnf,3,
+                                  arrows=sum(a_concs) != 0)
             agroup = []
             len_sym_g = len(sym_g.perm.site_perm)
             for i in range(len_sym_g):
diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index 3ad087b..67ccc7a 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -610,7 +610,7 @@ def _get_rotation_perms_lists(A,HNF,L,SNF,Op,RPlist,dperms,eps, arrows=False):
                         
                 # do the same thing for the arrows
                 skip = [False]*na_op
-                for im in range(na_op):
+                for im in range(na_op if arrows else 0):
                     for jm in range(na_op):
                         if skip[jm]:
                             continue
@@ -619,7 +619,7 @@ def _get_rotation_perms_lists(A,HNF,L,SNF,Op,RPlist,dperms,eps, arrows=False):
                             skip[jm] = True
                             break
 
-                if np.count_nonzero(dgp == 0) > 1 or np.count_nonzero(dap == 0) > 1: #pragma: no cover
+                if np.count_nonzero(dgp == 0) > 1 or (arrows and np.count_nonzero(dap == 0) > 1): #pragma: no cover
                     print("(d,g)-->(d',g') mapping failed in get_rotation_perm_lists")
                     exit()
 
-- 
2.43.0


From e19bc33b922de39ad4a6a326e15dbb646eeb6c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:10 +0000
Subject: [PATCH 03/32] fix: don't list a symmetry operation more than once

When the origin isn't on an atom two rotations may permute the sites in ways
that differ only by a translation, so their compositions with the translations
repeated some operations but not others and the Polya count, hence the range
the random subset is drawn from, came out wrong.
---
 phenum/grouptheory.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index 67ccc7a..9ad378f 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -684,6 +684,18 @@ def _get_rotation_perms_lists(A,HNF,L,SNF,Op,RPlist,dperms,eps, arrows=False):
             for il in range(len_ident):
                 temp_ident.append([ident[il][i] for i in perm])
             tperms_perm.append(np.reshape(temp_ident,(n*n_d)).tolist())
+
+        # Rotations whose permutations only differ by a translation
+        # form the same compositions, keep the first of them.
+        rotations = list(zip(temp_rperms_perm,[list(ap) for ap in temp_arrow_perm]))
+        found = []
+        temp_rperms_perm = []
+        temp_arrow_perm = []
+        for rperm, aperm in rotations:
+            if (rperm,aperm) not in found:
+                temp_rperms_perm.append(rperm)
+                temp_arrow_perm.append(aperm)
+                found.extend([([t[i] for i in rperm],aperm) for t in tperms_perm])
             
         rp_list_nl = len(temp_rperms_perm)*n
         rp_list_perm_sites = [0]*rp_list_nl
-- 
2.43.0


From 9fb9826c6e24db29513c5718ba5362f0cb4e6405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:34 +0000
Subject: [PATCH 04/32] fix: keep the Polya count in integer arithmetic

Counts above 2**53 were rounded, and came out wrong by many structures.
---
 phenum/polyaburnside.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/phenum/polyaburnside.py b/phenum/polyaburnside.py
index f429848..c559b21 100644
--- a/phenum/polyaburnside.py
+++ b/phenum/polyaburnside.py
@@ -287,7 +287,7 @@ class Multinomial(object):
         Returns:
             norm_seq (list): The normalized lust of exponents.
         """
-        return [int(ai/self.power) for ai in seq]
+        return [int(ai)//self.power for ai in seq]
 
     def nchoosekm(self, sequence):
         """Returns the number of different ways to partition an n-element
@@ -339,10 +339,10 @@ class Multinomial(object):
         t = 1
         if k < n-k:
             for i in range(n, n-k, -1):
-                t = t*i/(n-i+1)
+                t = t*i//(n-i+1)
         else:
             for i in range(n, k, -1):
-                t = t*i/(n-i+1)
+                t = t*i//(n-i+1)
 
         return t
 
@@ -544,4 +544,4 @@ def polya(concentrations, group, arrowings=None, debug=False):
         pp += p.coeff()
         
     rad = sum([p.coeff() for p in list(polyndict.values())])
-    return int(rad/float(len(group)))
+    return rad//len(group)
-- 
2.43.0


From c9caf5203fe80902493212169e822b688262d725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:51 +0000
Subject: [PATCH 05/32] fix: multinomial coefficients above 2**63 overflowed

The overflowed value decides how a system is enumerated, a huge system looked
like a small one.
---
 phenum/numerics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/phenum/numerics.py b/phenum/numerics.py
index 4a2575d..2f10bf2 100755
--- a/phenum/numerics.py
+++ b/phenum/numerics.py
@@ -64,8 +64,9 @@ def multinomial(n):
         new_sum = binomials[i-1][0]-binomials[i-1][1]
         binomials.append([new_sum,n[i]])
         
-    bins = []
+    # use python's integers, numpy's overflow
+    result = 1
     for b in binomials:
-        bins.append(binomial_coefficient(b[0],b[1]))
+        result *= binomial_coefficient(int(b[0]),int(b[1]))
     
-    return np.prod(bins)
+    return result
-- 
2.43.0


From a33a712a3c09b078dead22ffef7faea48f76caf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:47 +0000
Subject: [PATCH 06/32] fix: don't lose the children of a superperiodic branch

A superperiodic first completion of a branch was treated like an equivalent
branch, so with four or more species the rest of that branch was skipped and
structures went missing when the superperiodic structures are excluded.
---
 phenum/tree.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/phenum/tree.py b/phenum/tree.py
index f393d1b..31da9da 100644
--- a/phenum/tree.py
+++ b/phenum/tree.py
@@ -391,6 +391,7 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
         # stabilizers for the arrow configurations
         (unique,stabalizer[i+1],order,ast) = _perm(branch,concs,n,i,group,stabalizer[i],order,ast)
 
+        superperiodic = False
         if not supers and narrows == 0:
             from operator import mul
             # if we have a unique structure then we need to check if
@@ -403,7 +404,9 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
                     for act in action:
                         trans_branch.append(brancht[act])
                     if trans_branch == brancht and action != list(range(int(cellsize))):
-                        unique = 1
+                        # don't save it, but keep going down this
+                        # branch for the rest of its configurations
+                        superperiodic = True
                         if use_subset:
                             if count in subset:
                                 loc = subset.index(count)
@@ -420,7 +423,7 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
             # if we've visited every level of the tree
             # then we need to append the unique
             # configurations
-            if b0 == 1 or i == 0:
+            if (b0 == 1 or i == 0) and not superperiodic:
                 # if there are arrows we need to see
                 # what their unique arrangements are
                 # before saving the configurations
-- 
2.43.0


From 5702450ea64fce05555368fcb79acb0448a73cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:48 +0000
Subject: [PATCH 07/32] fix: compare the displaced sites too when looking for
 superperiodic arrows

---
 phenum/phonons.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index 028a557..66f2527 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -201,14 +201,11 @@ def add_arrows(col,agroup,dim, translations, accept=None,nested=False,num_wanted
                     for trans in translations:
                         action = trans[0]
                         permutation = trans[1]
-                        if action != list(range(len(action))) or (permutation != list(range(len(permutation)))):
-                            orig_sites = [i[1] for i in coloring_with_arrows]
-                            arrow_sites = [i[0] for i in coloring_with_arrows]
-                            perm_sites = [orig_sites[i] for i in action]
-                            rot_arrows = [arrow_sites[i] for i in action]
-                            perm_arrows = [permutation[site] for site in rot_arrows
-                                           if site >= 0]
-                            if orig_sites == perm_sites and perm_arrows == arrow_config:
+                        if (list(action) != list(range(len(action)))
+                            or list(permutation) != list(range(len(permutation)))):
+                            perm_coloring = [[permutation[s[0]] if s[0] >= 0 else s[0],s[1]]
+                                             for s in [coloring_with_arrows[i] for i in action]]
+                            if perm_coloring == coloring_with_arrows:
                                 unique = False
                                 break
                 if (accept is None or random() < accept) and unique == True:
@@ -285,13 +282,13 @@ def add_arrows(col,agroup,dim, translations, accept=None,nested=False,num_wanted
                     for trans in translations:
                         action = trans[0]
                         permutation = trans[1]
-                        orig_sites = [i[1] for i in coloring_with_arrows]
-                        perm_sites = [orig_sites[i] for i in action]
-                        perm_arrows = [permutation[site] for site in arrow_config
-                                         if site >= 0]
-                        if orig_sites == perm_sites and perm_arrows == arrow_config and action != list(range(len(action))) and permutation != list(range(len(permutation))): #pragma: no cover
-                            #This happens rarely and so it's really hard to access in tests.
-                            unique == False
+                        if (list(action) != list(range(len(action)))
+                            or list(permutation) != list(range(len(permutation)))):
+                            perm_coloring = [[permutation[s[0]] if s[0] >= 0 else s[0],s[1]]
+                                             for s in [coloring_with_arrows[i] for i in action]]
+                            if perm_coloring == coloring_with_arrows:
+                                unique = False
+                                break
 
                 if unique == True:
                     arsurvivors.append(coloring_with_arrows)
-- 
2.43.0


From 273054a951d33100205390005ab6612a028f3d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:49 +0000
Subject: [PATCH 08/32] fix: enumerate the displaced sites of a partially
 displaced single species

---
 phenum/phonons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index 66f2527..5f21938 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -457,7 +457,7 @@ def enum_sys(groupfile, concs, a_concs, num_wanted, HNF, params, supers, accept=
     # if we're doing a purely arrow enumeration then we don't need to
     # do the tree search but instead perform the final step of the
     # algorithm to find the possible unique displacements of the atoms
-    if len(concs) == 1 and all(decorations) >=0:
+    if len(concs) == 1 and n_arrows in (0, len(decorations)):
         configs = []
         if float(num_wanted)/total < 0.001 and accept is None:
             small = True
-- 
2.43.0


From c6b108775bcf09ccf2010f6088f03ecd6b645072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 09/32] fix: guess-and-check returned duplicates and could loop
 forever

---
 phenum/phonons.py |  6 +++---
 phenum/tree.py    | 17 ++++++++++++-----
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index 5f21938..13778e3 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -218,10 +218,10 @@ def add_arrows(col,agroup,dim, translations, accept=None,nested=False,num_wanted
     else:
         from random import randrange
         visited = []
-        orighash = randrange(maxpossible)
-        while len(arsurvivors) < num_wanted:
+        orighash = randrange(maxpossible+1)
+        while len(arsurvivors) < num_wanted and len(visited) <= maxpossible:
             while orighash in visited:
-                orighash = randrange(maxpossible)
+                orighash = randrange(maxpossible+1)
 
             visited.append(orighash)
             
diff --git a/phenum/tree.py b/phenum/tree.py
index 31da9da..53c63a5 100644
--- a/phenum/tree.py
+++ b/phenum/tree.py
@@ -574,6 +574,7 @@ def guess_and_check_brancher(concs, group, colors_w_arrows, dim, supers, cellsiz
     """
 
     from .phonons import how_many_arrows, add_arrows
+    from .numerics import multinomial
     from copy import deepcopy
 
     # redifine the colors so that the arrows are treated like
@@ -597,9 +598,13 @@ def guess_and_check_brancher(concs, group, colors_w_arrows, dim, supers, cellsiz
 
     survivors = []
     visited = []
+    # the labelings that have been tried already.
+    seen = set()
+    # the number of labelings that exist.
+    navailable = multinomial(concs)
 
     nfound = 0
-    while len(survivors) < num_wanted:
+    while len(survivors) < num_wanted and len(visited) < navailable:
         candidate = []
         # pick a random configuration to check against.
         for c_i in C:
@@ -615,6 +620,8 @@ def guess_and_check_brancher(concs, group, colors_w_arrows, dim, supers, cellsiz
         unique = True
 
         config = list(_invhash(candidate,concs,sum(concs)))
+        seen.add(tuple(config))
+        stabilizer = []
         for perms in group:
             perm = perms[0]
 
@@ -623,9 +630,9 @@ def guess_and_check_brancher(concs, group, colors_w_arrows, dim, supers, cellsiz
                 new_config.append(config[j])
             new_config = list(new_config)
 
-            new_location = _hash(new_config)
-
-            if new_location in visited and new_location != candidate: #pragma: no cover
+            if new_config == config:
+                stabilizer.append(perms)
+            elif tuple(new_config) in seen: #pragma: no cover
                 #This happens rarely and so it's really hard to access in tests.
                 unique = False
                 break
@@ -653,7 +660,7 @@ def guess_and_check_brancher(concs, group, colors_w_arrows, dim, supers, cellsiz
                 for con, t_con in enumerate(t_config):
                     t_config[con] = deepcopy(colors[t_con -1])
 
-                arsurvivors = add_arrows(t_config, group, dim, group[0:int(cellsize)], nested=True, num_wanted = num_wanted, supers = supers, small = True)
+                arsurvivors = add_arrows(t_config, stabilizer, dim, group[0:int(cellsize)], nested=True, num_wanted = num_wanted-len(survivors), supers = supers, small = True)
 
                 for survivor in arsurvivors:
                     survivors.append(survivor)
-- 
2.43.0


From cdb044256e568dee3192254490b2632df18ba6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 10/32] fix: large single species systems failed for want of a
 subset

---
 phenum/phonons.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index 13778e3..baac5d6 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -426,6 +426,7 @@ def enum_sys(groupfile, concs, a_concs, num_wanted, HNF, params, supers, accept=
     # then we don't need to run the polya algorithm.
     if (multinomial(concs) > 100000 and num_wanted <= 100) or (arrow_types !=0 and sum(concs) >= 12 and num_wanted <=100):
         total = 1e10
+        subset = num_wanted
     else:
         # now find the number of unique arrangements using
         # polya
-- 
2.43.0


From d11530322d54e97fbe01bb2869eda572b6818613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:53 +0000
Subject: [PATCH 11/32] fix: subsets came up short when superperiodic
 structures were excluded

---
 phenum/tree.py | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/phenum/tree.py b/phenum/tree.py
index 53c63a5..c8b8090 100644
--- a/phenum/tree.py
+++ b/phenum/tree.py
@@ -358,6 +358,9 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
     from numpy import zeros
     branch = zeros(len(C))
     survivors = []
+    # unique configurations that weren't part of the subset, they are
+    # needed if some of the members of the subset were superperiodic.
+    spare = []
 
     #variables used for iteration and as test criteria for
     #navigating the tree
@@ -367,7 +370,7 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
     i = 0
     b0 = 0
 
-    from random import random
+    from random import random, sample
     from phenum.msg import verbosity
     if verbosity is not None and verbosity >= 1: #pragma: no cover
         from tqdm import tqdm
@@ -384,7 +387,7 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
 
     while branch[0] < C[0] and ((subset is not None and isinstance(subset, list) and len(survivors) < len(subset))
                                 or use_subset == False
-                                or (accept is not None and isinstance(subset, int) and len(survivors) == subset)):
+                                or (accept is not None and isinstance(subset, int) and len(survivors) < subset)):
         # perm determines if the new array is unique, if yes unique =
         # 0, if no then unique = 1, perm also outputs the stabilizers
         # for each level, the order for the first level, and the
@@ -407,7 +410,7 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
                         # don't save it, but keep going down this
                         # branch for the rest of its configurations
                         superperiodic = True
-                        if use_subset:
+                        if isinstance(subset, list):
                             if count in subset:
                                 loc = subset.index(count)
                                 nv = count
@@ -451,10 +454,10 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
                             if subset is not None and isinstance(subset, list) and count in subset:
                                 survivors.append(z)
                             elif accept is not None and random() < accept and not isinstance(subset,list): #pragma: no cover
-                                if isinstance(subset,int) and len(survivors) < subset: #This option is only for large data sets that
+                                if not isinstance(subset,int) or len(survivors) < subset: #This option is only for large data sets that
                                     survivors.append(z) # are too large for unit testing purposes.
-                                else:
-                                    survivors.append(z)
+                            elif isinstance(subset,list):
+                                spare.append(z)
                         count += 1
                 else:
                     # if there are no arrows just
@@ -465,19 +468,14 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
                         tbranch = [colors[leaf -1][1] for leaf in tbranch]
                         survivors.append([[-1,leaf] for leaf in tbranch])
                     else:
+                        tbranch = list(_invhash(branch, concs, len(colors_w_arrows)))
+                        tbranch = [colors[leaf -1][1] for leaf in tbranch]
                         if subset is not None and isinstance(subset, list) and count in subset:
-                            tbranch = list(_invhash(branch, concs, len(colors_w_arrows)))
-                            tbranch = [colors[leaf -1][1] for leaf in tbranch]
                             survivors.append([[-1,leaf] for leaf in tbranch])
-                        elif accept is not None and random() < accept and not isinstance(subset, list): #pragma: no cover
-                            if isinstance(subset,int) and len(survivors) < subset: #This option is only for large data sets that
-                                tbranch = list(_invhash(branch, concs, len(colors_w_arrows))) # are too large for unit testing purposes.
-                                tbranch = [colors[leaf -1][1] for leaf in tbranch]
-                                survivors.append([[-1,leaf] for leaf in tbranch])
-                            else:
-                                tbranch = list(_invhash(branch, concs, len(colors_w_arrows)))
-                                tbranch = [colors[leaf -1][1] for leaf in tbranch]
-                                survivors.append([[-1,leaf] for leaf in tbranch])
+                        elif accept is not None and random() < accept and not isinstance(subset,list): #pragma: no cover
+                            survivors.append([[-1,leaf] for leaf in tbranch])
+                        elif isinstance(subset,list):
+                            spare.append([[-1,leaf] for leaf in tbranch])
 
                     count += 1
             # if we aren't on the last contributing level
@@ -546,6 +544,11 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
             if verbosity is not None and verbosity >= 1: #pragma: no cover
                 pbar.update(1)
 
+    # the subset counts every configuration, the ones that were dropped
+    # for being superperiodic have to be replaced.
+    if accept is None and isinstance(subset, list) and len(survivors) < len(subset):
+        survivors.extend(sample(spare, min(len(spare), len(subset)-len(survivors))))
+
     if verbosity is not None and verbosity >= 1: #pragma: no cover
         pbar.close()
     # done
-- 
2.43.0


From af7e861a437554a69756e6e97714eea7fd31a182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 12/32] fix: the distribution could exceed the request or what
 is available

---
 phenum/structures.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/phenum/structures.py b/phenum/structures.py
index 742e44a..21888eb 100644
--- a/phenum/structures.py
+++ b/phenum/structures.py
@@ -71,8 +71,10 @@ def _distribute(infile, cellsizes, ftype, n=None,seed=None, res_type=None, res_v
 
     result = {}
     rtotal = [0]
-    def vinsert(key, value, rtotal, n, result):
+    def vinsert(key, value, limit, rtotal, n, result):
         if rtotal[0] < n: #Only update if we are deficient in structures.
+            #Don't go past the total or what is available of this type.
+            value = int(min(value, n-rtotal[0], limit-result.get(key, 0)))
             if value > 0:
                 if key in result:
                     result[key] += value
@@ -90,7 +92,7 @@ def _distribute(infile, cellsizes, ftype, n=None,seed=None, res_type=None, res_v
         """
         if n == gtotal:
             for key, value, limit in relvals:
-                vinsert(key, limit, rtotal, n, result)
+                vinsert(key, limit, limit, rtotal, n, result)
         else:
             from math import modf
             from random import random, seed
@@ -119,13 +121,13 @@ def _distribute(infile, cellsizes, ftype, n=None,seed=None, res_type=None, res_v
                     #by the time we have iterated through the whole list.
                     rf, qf = modf(value if recount == 0 else f(delta, *(ids[ftype](key)),dataset=dataset,ftotal=float(gtotal)))
                     retval = int(qf + (1 if random() < rf else 0))
-                    if not vinsert(key, retval, rtotal, n, result):
+                    if not vinsert(key, retval, limit, rtotal, n, result):
                         break
                 recount += 1
 
-            if recount == 3 and rtotal[0] < n: #pragma: no cover
-                from .msg import warn
-                warn("Reached maximum recursion limit in random assignment.")
+            #If we are still short then top up with the most abundant ones.
+            for key, value, limit in relvals:
+                vinsert(key, limit, limit, rtotal, n, result)
                 
     #First, compile a dictionary at the lowest level that has the weights
     #for the desired value of 'n'.
@@ -322,9 +324,7 @@ def _distribution_summary(infile, cellsizes, HNFs = None, wanted_concs = None):
                         count += 1
 
                 distr[tuple(HNF)] = {tuple(c): v for c, v in zip(cs, vs)}
-            for m, v in zip(polya[0:-1,0:6], polya[:-1,-1]):
-                if tuple(m) in distr:
-                    stotals[tuple(m)] = v
+                stotals[tuple(HNF)] = sum(vs)
 
         dataset[s] = {
             "distr": distr,
@@ -430,6 +430,8 @@ def make_enum_in(infile,distribution,outfile,number=None,sizes=None,save=True,se
             if form in f and f[0]==form[0]:
                 sizes.append(int(f.split(".")[-1]))
                 ready = True
+        #The order of the directory listing isn't meaningful.
+        sizes.sort()
 
     else:
         for i in sizes:
-- 
2.43.0


From 8744106b686634d777b13d7e6e6b886c36993ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:52 +0000
Subject: [PATCH 13/32] fix: structures of skewed supercells lost atoms when
 mapped to real space

---
 phenum/vector_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/phenum/vector_utils.py b/phenum/vector_utils.py
index fc7d88d..2b02be4 100644
--- a/phenum/vector_utils.py
+++ b/phenum/vector_utils.py
@@ -100,8 +100,10 @@ def map_enumStr_to_real_space(system_data,structure_data,minkowskiReduce):
     for iD in range(0, n_d):  
         # For the limits on the loops, see the "interior_points.pdf" write-up
         for z1 in range(a):
-            for z2 in range(int((b*z1)/a), int(c+(b*z1)/a)):
-                for z3 in range(int(z1*(d-(e*b)/c)/a+(e*z2)/c), int(f+z1*(d-(e*b)/c)/a+(e*z2)/c)):
+            for z2 in range((b*z1)//a, c+(b*z1)//a):
+                # The lower limit can be negative so it has to be rounded down.
+                z3_low = (z1*(d*c-e*b)+e*z2*a)//(a*c)
+                for z3 in range(z3_low, f+z3_low):
                     ic +=1
                     # if ic > n: #pragma: no cover
                     #     from .msg import err
-- 
2.43.0


From efe999cdd96864a24d2495804d40e26ac3ca91a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:52 +0000
Subject: [PATCH 14/32] fix: the volume of lead was listed under Pd

---
 phenum/element_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/element_data.py b/phenum/element_data.py
index 60bab56..93e280e 100644
--- a/phenum/element_data.py
+++ b/phenum/element_data.py
@@ -12,7 +12,7 @@ element_volume ={"H":37.2958,"He":32.1789,"Li":21.2543,"Be":8.49323,"B":7.24205,
                  "In":26.6861,"Sn":29.3238,"Sb":27.1733,"Te":62.3227,"I":24.3807,"Xe":59.582,
                  "Cs":110.723,"Ba":63.253,"Hf":23.1748,"Ta":18.1323,"W":15.7772,"Re":14.8694,
                  "Os":14.5485,"Ir":14.1558,"Pt":15.0591,"Au":16.9793,"Hg":27.6914,"Tl":29.2949,
-                 "Pd":30.3218,"Bi":31.2849}
+                 "Pb":30.3218,"Bi":31.2849}
 
 def get_lat_param_element(lat_vecs,n_basis_atoms,element):
     """Finds the lattice parameter of an element for the given set of lattice.
-- 
2.43.0


From 9cb84b1027cbb6bf19b16d1265d3825994c26a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:52 +0000
Subject: [PATCH 15/32] fix: -mink f and -remove_zeros f were ignored

---
 phenum/phenumStr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/phenum/phenumStr.py b/phenum/phenumStr.py
index 2ab1474..9f09631 100644
--- a/phenum/phenumStr.py
+++ b/phenum/phenumStr.py
@@ -198,7 +198,10 @@ def run(args):
     if args["remove_zeros"] == "t":
         args["remove_zeros"] = True
     else:
-        args["remove_zeors"] = False
+        args["remove_zeros"] = False
+
+    if args["mink"] == "f":
+        args["mink"] = False
 
     _make_structures(args)
         
-- 
2.43.0


From 3d0740a03140002acf735b6283fc04ced026e7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:52 +0000
Subject: [PATCH 16/32] fix: displace the right atoms in the right directions

---
 phenum/io_utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/phenum/io_utils.py b/phenum/io_utils.py
index 0629068..5f2d298 100644
--- a/phenum/io_utils.py
+++ b/phenum/io_utils.py
@@ -338,6 +338,7 @@ def write_POSCAR(system_data,space_data,structure_data,args):
     """
 
     from numpy import array
+    from numpy.linalg import solve
     from phenum.element_data import get_lattice_parameter
     from random import uniform
     from itertools import product
@@ -351,7 +352,8 @@ def write_POSCAR(system_data,space_data,structure_data,args):
     g_indx = space_data["gIndx"]
     arrows = structure_data["directions"]
 
-    arrow_directions = [[0,0,0],[0,0,-1],[0,-1,0],[-1,0,0],[1,0,0],[0,1,0],[0,0,1]]
+    # The same order as in the arrow group, 0 is for an atom that isn't displaced.
+    arrow_directions = [[0,0,0],[1,0,0],[-1,0,0],[0,1,0],[0,-1,0],[0,0,1],[0,0,-1]]
     directions = []
 
     concs = [0]*system_data["k"]
@@ -390,7 +392,9 @@ def write_POSCAR(system_data,space_data,structure_data,args):
         poscar.write("D\n")
         for ilab, iAt in product(range(system_data["k"]),range(structure_data["n"]*system_data["nD"])):
             rattle = uniform(-args["rattle"],args["rattle"])
-            displace = directions[iAt]*args["displace"]*lattice_parameter
+            # The atoms are in direct coordinates and the arrows are
+            # cartesian so the displacements need to be converted.
+            displace = solve(array(slv).T, directions[g_indx[iAt]]*args["displace"])
             displace += displace*rattle
             if labeling[g_indx[iAt]] == str(ilab):
                 out_array = array(space_data["aBas"][iAt]) + displace
@@ -423,7 +427,7 @@ def write_config(system_data,space_data,structure_data,args,mapping=None):
     struct_n = structure_data["strN"]
 
     # The arrow basis.
-    arrow_directions = [[1,0,0],[-1,0,0],[0,1,0],[0,-1,0],[0,0,1],[0,0,-1]]
+    arrow_directions = [[0,0,0],[1,0,0],[-1,0,0],[0,1,0],[0,-1,0],[0,0,1],[0,0,-1]]
     directions = []
 
     # Construct the concentrations of the atoms from the labeling by
@@ -484,7 +488,7 @@ def write_config(system_data,space_data,structure_data,args,mapping=None):
         for iAt in range(structure_data["n"]*system_data["nD"]):
             for ilab in range(system_data["k"]):
                 rattle = uniform(-args["rattle"],args["rattle"])
-                displace = directions[iAt]*args["displace"]*lattice_parameter
+                displace = directions[gIndx[iAt]]*args["displace"]*lattice_parameter
                 # If the displacement is non zero and we're `rattling`
                 # the system then we need to modify the displacement
                 # by the amount being rattled.
-- 
2.43.0


From a205235e89915ee809b5883c9623ffe6f9b8be81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:16 +0000
Subject: [PATCH 17/32] fix: read lattice.in files with blank lines and aligned
 columns

---
 phenum/io_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phenum/io_utils.py b/phenum/io_utils.py
index 5f2d298..2dc9fc6 100644
--- a/phenum/io_utils.py
+++ b/phenum/io_utils.py
@@ -36,9 +36,9 @@ def read_lattice(filename='lattice.in'):
     """
     from .msg import info
     with open(filename,'r') as f:
-        lines = [l for l in f.readlines() if l.strip()[0] != '#']
+        lines = [l for l in f.readlines() if l.strip() != '' and l.strip()[0] != '#']
         
-    sizes = [int(el) for el in lines[0].split(' ')]
+    sizes = [int(el) for el in lines[0].split()]
     bulk = lines[1].strip()[0].lower() == 'b'
     lat_vecs = [list(map(float, l.split())) for l in lines[2:5]]
     nspecies = int(lines[5])
-- 
2.43.0


From d190ce38073d4eaa5f9f86f94a166783b1802d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:46 +0000
Subject: [PATCH 18/32] fix: use each species' own denominator for its
 concentration range

---
 phenum/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/symmetry.py b/phenum/symmetry.py
index 3fa118e..b49276c 100644
--- a/phenum/symmetry.py
+++ b/phenum/symmetry.py
@@ -33,9 +33,9 @@ def get_concs_for_size(size,nspecies,res_concs,nB,concs):
     
     from itertools import product
     if res_concs == True:
-        denom = concs[0][2]
         vol_table = []
         for atom in concs:
+            denom = atom[2]
             minc = min(atom[0:2])
             maxc = max(atom[0:2])
             vol_table.append([int(math.floor(float(minc)/denom*size*nB)),int(math.ceil(float(maxc)/denom*size*nB)),size*nB])
-- 
2.43.0


From c3eb0864a9165b60efe1a88518bcff7c631be207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:47 +0000
Subject: [PATCH 19/32] fix: SmithNormalForm refused unimodular matrices for a
 rounding error

---
 phenum/grouptheory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index 9ad378f..26cadb2 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -282,7 +282,7 @@ def SmithNormalForm(HNF):
     from numpy import dot
     from copy import deepcopy
     
-    if np.linalg.det(HNF) < 1:
+    if round(np.linalg.det(HNF)) < 1:
         raise ValueError("SmithNormalForm routine failed because the input matrix had a "
                          "determinant less than 1.")
 
-- 
2.43.0


From 24221fd299cfc15cf4e49c746d2cfd7bf2b44cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:09 +0000
Subject: [PATCH 20/32] fix: concentration filters only worked for binary
 systems

---
 phenum/structures.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/phenum/structures.py b/phenum/structures.py
index 21888eb..ea692ff 100644
--- a/phenum/structures.py
+++ b/phenum/structures.py
@@ -309,6 +309,9 @@ def _distribution_summary(infile, cellsizes, HNFs = None, wanted_concs = None):
                 if tuple(m) in HNFs:
                     stotals[tuple(m)] = v
         elif wanted_concs is not None:
+            #The number of structures may follow the concentrations.
+            nspecies = len(concs[0]) if len(concs) > 0 else 0
+            wanted = [tuple(w[:nspecies]) for w in wanted_concs]
             ctotals = {c: v for c, v in zip(concs,[0]*len(concs))}
             stotals = {}
             for iHNF, HNF in enumerate(polya[0:-1,0:6]):
@@ -317,7 +320,7 @@ def _distribution_summary(infile, cellsizes, HNFs = None, wanted_concs = None):
                 count = 0
 
                 for c, v in zip(concs, polya[iHNF,6:-1]):
-                    if c in wanted_concs:
+                    if c in wanted:
                         ctotals[c] += v
                         cs.append(c)
                         vs.append(v)
@@ -455,7 +458,7 @@ def make_enum_in(infile,distribution,outfile,number=None,sizes=None,save=True,se
                 elif restrict[0] == "shape":
                     res_values.append(tuple([int(i) for i in values.split()[0:6]]))
                 elif restrict[0] == "conc":
-                    res_values.append(tuple([int(i) for i in values.split()[1:3]]))
+                    res_values.append(tuple([int(i) for i in values.split()[1:]]))
 
         distr = _distribute(infile, sizes,distribution,n=number,seed=seed,res_type=restrict[0],res_values=res_values)        
     else:
-- 
2.43.0


From 8630a3d588498ae9b20457fc899827127260c2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:33 +0000
Subject: [PATCH 21/32] fix: a species mapping without species names failed

---
 phenum/io_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phenum/io_utils.py b/phenum/io_utils.py
index 2dc9fc6..0ed8a15 100644
--- a/phenum/io_utils.py
+++ b/phenum/io_utils.py
@@ -443,7 +443,8 @@ def write_config(system_data,space_data,structure_data,args,mapping=None):
     def_title = "{}{}\n".format(str(system_data["title"]),str(structure_data["strN"]))
     # Get the lattice parameter for the atomic species provided by the
     # user.
-    if mapping is not None and len(args["species"]) != len(mapping):
+    if (mapping is not None and args["species"] is not None and
+        len(args["species"]) != len(mapping)):
         species = [args["species"][i] for i in mapping.values()]
     else:
         species = args["species"]
-- 
2.43.0


From 5b5a391133324e42f55d84405e5f762fce0bff20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:58 +0000
Subject: [PATCH 22/32] fix: the group of a single generator came out empty

---
 phenum/grouptheory.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index 26cadb2..a6d3197 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -894,6 +894,9 @@ def _group(gen): # pragma: no cover
                 # every time d is not in group i add it
                 if d not in groupi:
                     groupi.append(d)
+    # a single generator has no partner to be combined with above
+    if len(groupi) == 0:
+        groupi.extend(gen)
     # new is a tracker that is 0 while we are still finding new group
     # elements and 1 when no new ones are found
     new = 0
-- 
2.43.0


From bdc13517eb56550735375e6fc12199e72bbe5d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:13 +0000
Subject: [PATCH 23/32] fix: columns of the enumeration file ran together for
 supercells of index 100 or more

---
 phenum/enumeration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index 4132de6..d8347b7 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -169,11 +169,12 @@ def _enum_out(args):
     count_t = 1
     count_s = 0
     from operator import itemgetter
-    sfmt = ("{0: >10d}{1: >10d}{2: >8d}{3: >9d}{4: >9d}{5: >12d}{6: >4d}{7: >6d}"
+    sfmt = ("{0: >10d}{1: >10d}{2: >8d}{3: >9d}{4: >9d}{5: >12d} {6: >3d}{7: >6d}"
             "{8: >10}  {9: >18}  {10: >44}    {11}    {12: >21}\n")
     def fmtn(l, n):
         l = [int(i) for i in l]
-        return (''.join(["{{{0:d}: >{1:d}d}}".format(i, n) for i in range(len(l))])).format(*l)
+        #Numbers that fill the whole column still have to be separated.
+        return (''.join([" {{{0:d}: >{1:d}d}}".format(i, n-1) for i in range(len(l))])).format(*l)
     
     with open(args["outfile"], 'a') as f:
         enumlist = []    
-- 
2.43.0


From 2ad69fe6a4584c54c660260a9024118676f2c0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:26 +0000
Subject: [PATCH 24/32] fix: leave the basis vectors and group given to
 get_sym_group, get_HNFs and polya as they were

---
 phenum/HNFs.py          | 1 +
 phenum/grouptheory.py   | 1 +
 phenum/polyaburnside.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/phenum/HNFs.py b/phenum/HNFs.py
index e2154fd..a5c39de 100644
--- a/phenum/HNFs.py
+++ b/phenum/HNFs.py
@@ -141,6 +141,7 @@ def get_HNFs(n,pLV,base_vecs,LatDim,eps_=None):
 
     hnfs = find_all_HNFs(n)
     temp_basis = deepcopy(base_vecs)
+    base_vecs = deepcopy(base_vecs)
     plv_inv = np.transpose(np.linalg.inv(pLV))
     for i, b_vecs in enumerate(base_vecs):
         base_vecs[i] = bring_into_cell(b_vecs,plv_inv,np.transpose(pLV),eps)
diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index a6d3197..aa6198f 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -753,6 +753,7 @@ def get_sym_group(par_lat,bas_vecs,HNF,LatDim,arrows=True):
     # the cell
     par_lat_inv = np.transpose(linalg.inv(par_lat))
     temp_basis = deepcopy(bas_vecs)
+    bas_vecs = deepcopy(bas_vecs)
     for i, b_vecs in enumerate(bas_vecs):
         # par_lat_inv = linalg.inv(np.transpose(par_lat))
         bas_vecs[i] = bring_into_cell(b_vecs,par_lat_inv,np.transpose(par_lat),eps)
diff --git a/phenum/polyaburnside.py b/phenum/polyaburnside.py
index c559b21..8d12d9a 100644
--- a/phenum/polyaburnside.py
+++ b/phenum/polyaburnside.py
@@ -517,6 +517,7 @@ def polya(concentrations, group, arrowings=None, debug=False):
         raise ValueError("The concentrations don't sum to the number of things the group is acting on!")
             
     len_g = len(group)
+    group = [list(g) for g in group]
     for k, g in itertools.product(range(2),range(len_g)):
         if 0 not in group[g][k]:
             group[g][k] = [j-1 for j in group[g][k]]
-- 
2.43.0


From 1b81ff235fd088e82b8169c5b9e95f051a65d9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:59 +0000
Subject: [PATCH 25/32] fix: find the point group of lattices with large cells

The volumes of candidate triplets were compared with an absolute
tolerance below rounding for cells of more than about 10^5 cubic units, so not even
the identity was found.
---
 phenum/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/symmetry.py b/phenum/symmetry.py
index b49276c..79a0f1a 100644
--- a/phenum/symmetry.py
+++ b/phenum/symmetry.py
@@ -253,7 +253,7 @@ def get_lattice_pointGroup(a_vecs, eps=1E-10):
     lattpg_op = []
     from itertools import permutations
     for i,j,k in permutations(range(num_rs),3):
-        if (abs(r_lengths[i] - norm_avecs[0]) > eps) or (abs(r_lengths[j] - norm_avecs[1]) > eps) or (abs(r_lengths[k] - norm_avecs[2]) > eps) or (abs(cell_volume - abs(numpy.linalg.det([r_vecs[i],r_vecs[j],r_vecs[k]]))) > eps):
+        if (abs(r_lengths[i] - norm_avecs[0]) > eps) or (abs(r_lengths[j] - norm_avecs[1]) > eps) or (abs(r_lengths[k] - norm_avecs[2]) > eps) or (abs(cell_volume - abs(numpy.linalg.det([r_vecs[i],r_vecs[j],r_vecs[k]]))) > eps*max(1.,cell_volume)):
             continue
         # Form the new set of "rotated" basis vectors
         new_vectors = [r_vecs[i],r_vecs[j],r_vecs[k]]
-- 
2.43.0


From c2ec27029f8c8d5cf03450ef9d84c81bc5b18625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:48 +0000
Subject: [PATCH 26/32] fix: make the 3d axes of the plots with add_subplot
 (gca takes no projection any more)

---
 phenum/visualize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phenum/visualize.py b/phenum/visualize.py
index d5b2f80..5038d6d 100644
--- a/phenum/visualize.py
+++ b/phenum/visualize.py
@@ -76,7 +76,7 @@ def HNF_shapes(enum,lattice,show,testmode=False):
                 za = [atom[2] for atom in atoms]
 
                 fig = plt.figure()
-                ax = fig.gca(projection='3d')
+                ax = fig.add_subplot(111, projection='3d')
                 ax.set_aspect('equal')
                 ax.set_axis_off()
                 ax.scatter(xa,ya,za,zdir='z',c='red',s=1000)
@@ -162,7 +162,7 @@ def HNF_atoms(enum,lattice,show,testmode=False):
                 zf = [atom[2] for atom in atoms]
 
                 fig = plt.figure()
-                ax = fig.gca(projection='3d')
+                ax = fig.add_subplot(111, projection='3d')
                 ax.set_aspect('equal')
                 ax.set_axis_off()
                 ax.scatter(xf,yf,zf,zdir='z',c='red',s=1000)
-- 
2.43.0


From 49d6ea5c8e3306152a407311e7999d15dcd8aaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:48 +0000
Subject: [PATCH 27/32] fix: plot supercells of parents with more than one
 basis atom (the labeling has one entry per site)

---
 phenum/visualize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phenum/visualize.py b/phenum/visualize.py
index 5038d6d..1798975 100644
--- a/phenum/visualize.py
+++ b/phenum/visualize.py
@@ -48,8 +48,8 @@ def HNF_shapes(enum,lattice,show,testmode=False):
                 structure["diag"] = [SNF[0][0],SNF[1][1],SNF[2][2]]
                 structure["L"] = L
                 structure["n"] = reduce(mul,structure["diag"],1)
-                structure["labeling"] = "".join(["0" for i in range(structure["n"])])
                 system["nD"] = len(system["dvecs"])
+                structure["labeling"] = "".join(["0" for i in range(structure["n"]*system["nD"])])
                 space_data = map_enumStr_to_real_space(system,structure,True)
                 space_data["aBas"] = cartesian2direct(space_data["sLV"],space_data["aBas"],system["eps"])
                 # the corners of the polyhedron except the origin.
@@ -149,8 +149,8 @@ def HNF_atoms(enum,lattice,show,testmode=False):
                 structure["diag"] = [SNF[0][0],SNF[1][1],SNF[2][2]]
                 structure["L"] = L
                 structure["n"] = reduce(mul,structure["diag"],1)
-                structure["labeling"] = "".join(["0" for i in range(structure["n"])])
                 system["nD"] = len(system["dvecs"])
+                structure["labeling"] = "".join(["0" for i in range(structure["n"]*system["nD"])])
                 space_data = map_enumStr_to_real_space(system,structure,True)
                 space_data["aBas"] = cartesian2direct(space_data["sLV"],space_data["aBas"],system["eps"])
                 atoms = []
-- 
2.43.0


From ea4917ce150a56024eb911f6d26288aae230d55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:26 +0000
Subject: [PATCH 28/32] fix: -verbose works without tqdm, which is no declared
 dependency

---
 phenum/enumeration.py |  4 ++--
 phenum/msg.py         | 20 ++++++++++++++++++++
 phenum/phonons.py     |  4 ++--
 phenum/tree.py        |  8 ++++----
 4 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index d8347b7..a5101d1 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -180,8 +180,8 @@ def _enum_out(args):
         enumlist = []    
         for hnf, conc, num_wanted in systems:
             if verbosity is not None and verbosity >= 1: #pragma: no cover
-                from tqdm import tqdm 
-                pbar = tqdm(total=len(systems))
+                from phenum.msg import progress
+                pbar = progress(total=len(systems))
             (SNF,L,R) = SmithNormalForm(get_full_HNF(hnf))
             SNF = [SNF[0][0],SNF[1][1],SNF[2][2]]
             LT = [item for row in L for item in row]
diff --git a/phenum/msg.py b/phenum/msg.py
index 151210e..9ee9c82 100644
--- a/phenum/msg.py
+++ b/phenum/msg.py
@@ -149,3 +149,23 @@ def std(msg, level=1):
     """Prints using the standard print() function."""
     if will_print(level):
         print(msg)
+
+class _SilentBar(object):
+    """Stands in for the progress bar when tqdm isn't installed."""
+    def update(self, n=1):
+        """Does nothing."""
+
+    def close(self):
+        """Does nothing."""
+
+def progress(total):
+    """Returns a progress bar, one that shows nothing if tqdm (an optional
+    dependency) isn't available.
+
+    :arg total: the number of steps expected.
+    """
+    try:
+        from tqdm import tqdm
+    except ImportError:
+        return _SilentBar()
+    return tqdm(total=total)
diff --git a/phenum/phonons.py b/phenum/phonons.py
index baac5d6..f1c476a 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -128,13 +128,13 @@ def add_arrows(col,agroup,dim, translations, accept=None,nested=False,num_wanted
     maxpossible = _ahash(largest_arrow,dim)
     from phenum.msg import verbosity
     if verbosity is not None and verbosity >= 1 and not nested: #pragma: no cover
-        from tqdm import tqdm 
+        from phenum.msg import progress
         #If accept is specified, then we should get on average that many out.
         if num_wanted is not None:
             ntotal = num_wanted
         else:
             ntotal = maxpossible
-        pbar = tqdm(total=ntotal)
+        pbar = progress(total=ntotal)
 
     #this loop runs over every possible configuration of arrows
     #staring from the one with the smallest hash number and ending
diff --git a/phenum/tree.py b/phenum/tree.py
index c8b8090..b61ae5c 100644
--- a/phenum/tree.py
+++ b/phenum/tree.py
@@ -373,14 +373,14 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
     from random import random, sample
     from phenum.msg import verbosity
     if verbosity is not None and verbosity >= 1: #pragma: no cover
-        from tqdm import tqdm
+        from phenum.msg import progress
         if isinstance(subset, list) and len(subset) > 0:
             ntotal = len(subset)
         elif isinstance(subset, int):
             ntotal = subset
         else:
             ntotal = total
-        pbar = tqdm(total=ntotal)
+        pbar = progress(total=ntotal)
     # Now we loop through the different possible hash arrays until
     # they have all been considered
     ncurrent = 0
@@ -596,8 +596,8 @@ def guess_and_check_brancher(concs, group, colors_w_arrows, dim, supers, cellsiz
     from random import random, randint
     from phenum.msg import verbosity
     if verbosity is not None and verbosity >= 1: #pragma: no cover
-        from tqdm import tqdm
-        pbar = tqdm(total=num_wanted)
+        from phenum.msg import progress
+        pbar = progress(total=num_wanted)
 
     survivors = []
     visited = []
-- 
2.43.0


From 04754671e8ee3b9e3fc484f72434ea8b882246ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:26 +0000
Subject: [PATCH 29/32] fix: the scripts end normally after printing their
 examples

---
 phenum/enumeration.py | 5 ++++-
 phenum/phenumStr.py   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index a5101d1..6a79341 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -394,7 +394,10 @@ def _script_enum(args, testmode=False):
 if __name__ == '__main__':
     args = _parser_options()
     
-    if args["profile"]:
+    if args is None:
+        # Only the examples were asked for and they have been printed.
+        pass
+    elif args["profile"]:
         from vprof import profiler
         profiler.run(_script_enum, args["profile"], args=(args,), host='localhost', port=8000)
     else:
diff --git a/phenum/phenumStr.py b/phenum/phenumStr.py
index 9f09631..4d77964 100644
--- a/phenum/phenumStr.py
+++ b/phenum/phenumStr.py
@@ -206,4 +206,7 @@ def run(args):
     _make_structures(args)
         
 if __name__ == '__main__':
-    run(_parser_options())
+    args = _parser_options()
+    # There are no arguments when only the examples were asked for.
+    if args is not None:
+        run(args)
-- 
2.43.0


From bc0a8b321355b0924bb6806b5ec73364b7833858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:22 +0000
Subject: [PATCH 30/32] fix: counts left behind by an interrupted run aren't
 taken for the whole count

---
 phenum/enumeration.py | 45 +++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index 6a79341..0204d4b 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -16,6 +16,36 @@ def _plot_HNFs(args,testmode=False):
         from phenum.visualize import HNF_atoms
         HNF_atoms(args["input"],args["lattice"],args["show"],testmode=testmode)    
 
+def _count_missing(args, tables):
+    """Makes the polya count files if there aren't any. They only get their
+    names once all of them are written, so that those an interrupted run
+    left behind aren't taken for the whole count.
+
+    Args:
+        args (dict): The command line inputs.
+        tables (str): The name of the count files without the size.
+    """
+
+    from glob import glob
+    from copy import deepcopy
+    from os import remove, rename
+    from os.path import isfile
+
+    part = tables + "_part"
+    if len(glob(tables+".*")) >= 1 and len(glob(part+".*")) == 0:
+        return
+
+    for leftover in glob(part+".*"):
+        remove(leftover)
+    temp_args = deepcopy(args)
+    temp_args["outfile"] = part
+    _polya_out(temp_args)
+    for counts in glob(part+".*"):
+        target = tables + counts[len(part):]
+        if isfile(target):
+            remove(target)
+        rename(counts, target)
+
 def _enum_in(args):
     """Makes an enum.in file that contains the desired distribution of
     structures from the polya distribution.
@@ -25,14 +55,9 @@ def _enum_in(args):
     """
 
     from phenum.structures import make_enum_in
-    from glob import glob
-    from copy import deepcopy
 
-    if not len(glob(args["input"]+".*")) >= 1:
-        temp_args = deepcopy(args)
-        temp_args["outfile"] = args["input"]
-        _polya_out(temp_args)
-    
+    _count_missing(args, args["input"])
+
     distribution = args["distribution"][0].lower()
     if args["sizes"]:
         sizes = list(range(*args["sizes"]))
@@ -137,7 +162,6 @@ def _enum_out(args):
     from random import seed
     from phenum.grouptheory import get_full_HNF, SmithNormalForm
     from os.path import isfile
-    from glob import glob
     from copy import deepcopy
 
     if args["seed"] is not None:
@@ -149,10 +173,7 @@ def _enum_out(args):
     params = io.read_lattice(args["lattice"])
 
     if not isfile(args["input"]):
-        if not len(glob("polya.out.*")) >= 1:
-            temp_args = deepcopy(args)
-            temp_args["outfile"] = "polya.out"
-            _polya_out(temp_args)
+        _count_missing(args, "polya.out")
 
         temp_args = deepcopy(args)
         temp_args["input"] = "polya.out"
-- 
2.43.0


From adfcccd814252cacffe0fb1654c3876f01a29bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:22 +0000
Subject: [PATCH 31/32] fix: a list of systems left behind by an interrupted
 run isn't taken for the whole list

---
 phenum/enumeration.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index 0204d4b..dac7d1a 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -161,6 +161,7 @@ def _enum_out(args):
     from phenum.msg import verbosity
     from random import seed
     from phenum.grouptheory import get_full_HNF, SmithNormalForm
+    from os import remove, rename
     from os.path import isfile
     from copy import deepcopy
 
@@ -175,14 +176,19 @@ def _enum_out(args):
     if not isfile(args["input"]):
         _count_missing(args, "polya.out")
 
+        # The list only gets its name once it's complete, see above.
         temp_args = deepcopy(args)
         temp_args["input"] = "polya.out"
-        temp_args["outfile"] = args["input"]
+        temp_args["outfile"] = args["input"] + "_part"
+        if isfile(temp_args["outfile"]):
+            remove(temp_args["outfile"])
         if args["distribution"] is None:
             temp_args["distribution"] = ["all","all"]
         else:
             temp_args["distribution"] = args["distribution"]
         _enum_in(temp_args)
+        if isfile(temp_args["outfile"]):
+            rename(temp_args["outfile"], args["input"])
             
     systems = io.read_enum(args["input"])
     io.write_enum(params, outfile=args["outfile"])    
-- 
2.43.0


From 65f6e31f01e4016def65f6f235303ad0f8383302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:09 +0000
Subject: [PATCH 32/32] fix: only the count files of the given name are used,
 not those of names that start alike

---
 phenum/enumeration.py | 2 +-
 phenum/structures.py  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index dac7d1a..9d6745a 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -32,7 +32,7 @@ def _count_missing(args, tables):
     from os.path import isfile
 
     part = tables + "_part"
-    if len(glob(tables+".*")) >= 1 and len(glob(part+".*")) == 0:
+    if len(glob(tables+".[0-9]*")) >= 1 and len(glob(part+".*")) == 0:
         return
 
     for leftover in glob(part+".*"):
diff --git a/phenum/structures.py b/phenum/structures.py
index ea692ff..778b2db 100644
--- a/phenum/structures.py
+++ b/phenum/structures.py
@@ -430,7 +430,8 @@ def make_enum_in(infile,distribution,outfile,number=None,sizes=None,save=True,se
 
         ready = False
         for f in files:
-            if form in f and f[0]==form[0]:
+            #Other files may have names that start alike.
+            if f.startswith(form + ".") and f[len(form)+1:].isdigit():
                 sizes.append(int(f.split(".")[-1]))
                 ready = True
         #The order of the directory listing isn't meaningful.
-- 
2.43.0

