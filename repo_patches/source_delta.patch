From e94112fd11165ebe301e83575a97c4e0954d22a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:42 +0000
Subject: [PATCH 01/29] fix: S+S- keeps every hole of the determinant in basis
 order

The holes were collected through a set intersection with the site
restriction, so they could come back in hash order (for example [8, 1])
or be dropped; the result then got a wrong index in the basis and S^2 was
wrong (3x3 lattice, holes on sites 1 and 8).
---
 interactions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/interactions.py b/interactions.py
index c3e6038..cd06656 100644
--- a/interactions.py
+++ b/interactions.py
@@ -617,8 +617,10 @@ def compute_S_plus_S_minus_det(configuration, det, site_plus, site_minus):
     Returns:
         det_return (list<int>): the resulting Slater determinant
     """
-    list_alpha = bC.get_indexes_of(configuration, det, 1)
-    list_beta = bC.get_indexes_of(configuration, det, -1)
+    nholes = configuration.nholes
+    nbeta = configuration.nbeta
+    list_alpha = list(det[nholes + nbeta :])
+    list_beta = list(det[nholes : nholes + nbeta])
     
     if site_plus in list_beta:
         if site_minus in list_alpha:
@@ -631,7 +633,7 @@ def compute_S_plus_S_minus_det(configuration, det, site_plus, site_minus):
             list_alpha.sort()
             list_beta.sort()
             
-            det_return = bC.get_indexes_of(configuration, det, 0) + list_beta + list_alpha
+            det_return = list(det[: nholes]) + list_beta + list_alpha
             return det_return
     else:
         return
-- 
2.43.0


From c4cde09863ac6a05a30af62e5625da6b362c97b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:42 +0000
Subject: [PATCH 02/29] fix: spin reversal and lattice extension keep every
 site of the determinant

Both collected the sites through the site restriction (and in set order),
so the sites outside the restriction vanished from the resulting
determinant and the extended determinant could come out unordered.
---
 baseConstruction.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/baseConstruction.py b/baseConstruction.py
index 2d2c662..9009efd 100644
--- a/baseConstruction.py
+++ b/baseConstruction.py
@@ -231,10 +231,12 @@ def extend_determinant(configuration_1, configuration_2, det_1, det_2):
         det (list<int>): the corresponding determinant in the extended lattice
     """
     nsites_1 = configuration_1.nsites
+    nholes_1, nholes_2 = configuration_1.nholes, configuration_2.nholes
+    nbeta_1, nbeta_2 = configuration_1.nbeta, configuration_2.nbeta
 
-    det_1_hole, det_2_hole = get_indexes_of(configuration_1, det_1, 0), get_indexes_of(configuration_2, det_2, 0)
-    det_1_beta, det_2_beta = get_indexes_of(configuration_1, det_1, -1), get_indexes_of(configuration_2, det_2, -1)
-    det_1_alpha, det_2_alpha = get_indexes_of(configuration_1, det_1, 1), get_indexes_of(configuration_2, det_2, 1)
+    det_1_hole, det_2_hole = list(det_1[: nholes_1]), list(det_2[: nholes_2])
+    det_1_beta, det_2_beta = list(det_1[nholes_1 : nholes_1 + nbeta_1]), list(det_2[nholes_2 : nholes_2 + nbeta_2])
+    det_1_alpha, det_2_alpha = list(det_1[nholes_1 + nbeta_1 :]), list(det_2[nholes_2 + nbeta_2 :])
 
     det_hole = det_1_hole + [site + nsites_1 for site in det_2_hole]
     det_beta = det_1_beta + [site + nsites_1 for site in det_2_beta]
@@ -262,7 +264,8 @@ def reverse_spins(configuration, det):
         configuration.nbv, 
         configuration.nblocs_side
     )
-    det_flip = get_indexes_of(configuration, det, 0) + get_indexes_of(configuration, det, 1) + get_indexes_of(configuration, det, -1)
+    nholes, nbeta = configuration.nholes, configuration.nbeta
+    det_flip = list(det[: nholes]) + list(det[nholes + nbeta :]) + list(det[nholes : nholes + nbeta])
     return configuration_flip, reorder_basis_element(configuration_flip, det_flip)
 
 
-- 
2.43.0


From c8c10c0ad3aaf4ed4eeb058ee60ffa5a994e961f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:21 +0000
Subject: [PATCH 03/29] fix: alignment test on cluster-indexed lattices

The search for a permutation built from the eigenvectors of the bond
matrices only works for non degenerate spectra: it raised IndexError for
blocks such as (2, 1, 2) or (1, 2, 2), and was exponential in the number
of sites. Count the common neighbors of the end sites instead.
---
 baseConstruction.py | 53 +++------------------------------------------
 1 file changed, 3 insertions(+), 50 deletions(-)

diff --git a/baseConstruction.py b/baseConstruction.py
index 9009efd..344530e 100644
--- a/baseConstruction.py
+++ b/baseConstruction.py
@@ -356,56 +356,9 @@ def is_bond_linear(configuration, site1, site2, site3): # Should implement metho
                     return False
 
             
-    else: # We look for the permutation of the sites indices that makes the indexing as in a lattice of type 'periodic'
-        configuration_periodic = copy.deepcopy(configuration)
-        configuration_periodic.bond_matrix = lF.build_rectangular_bond_matrix(configuration.nbh, configuration.nbv, configuration.nblocs_side)
-        configuration_periodic.lattice_type = 'periodic'
-        nbh, nbv, nblocs_side, nsites = configuration.nbh, configuration.nbv, configuration.nblocs_side, configuration.nsites
-        
-        bond_matrix_clusters = configuration.bond_matrix
-        bond_matrix_periodic = lF.build_rectangular_bond_matrix(nbh, nbv, nblocs_side)
-
-        # We compute transfer_matrix, the matrix of the permutation of sites from the cluster type indexing (or any other indexing) to the periodic type indexing
-        # so that we find the indexes of the considered sites in a periodic type indexing
-
-        clusters_eigenstates = np.linalg.eigh(bond_matrix_clusters)
-        clusters_eigenvectors = clusters_eigenstates[1]
-
-        periodic_eigenstates = np.linalg.eigh(bond_matrix_periodic)
-        periodic_eigenvectors = periodic_eigenstates[1]
-
-        # We find that, if C = bond_matrix_clusters, P = bond_matrix_periodic, and V = transfer_matrix, 
-        # with VCV.T = P and C = UDU.T, P = WDW.T, with D diagonal, it yields that W.TVU commutes with D, hence is diagonal : V=WD'U.T
-        # Given that V is unitary (VV.T=V.TV=I), (D')^2 = I so its diagonal coefficients are either 1 or -1
-        # We look for the correct D', that stabilizes 0 (V[0, 0] = 1) and make every coefficient of V live in [0, 1] (V[i, j] = 0 or 1)
-
-        possibles_diag = tuple(product([1, -1], repeat=nsites))
-        ind_diag = 0
-        is_permutation_matrix = False
-        while ind_diag < 2 ** nsites and not is_permutation_matrix :
-            commuting_matrix = np.diag(possibles_diag[ind_diag])
-            transfer_matrix = np.matmul(periodic_eigenvectors, np.matmul(commuting_matrix, clusters_eigenvectors.T))
-            if round(transfer_matrix[0, 0], 10) == 1.:
-                ind_row = 0
-                ind_col = 0
-                while ind_row < nsites and round(transfer_matrix[ind_row, ind_col], 10) in (0., 1.):
-                    if ind_col < nsites - 1:
-                        ind_col += 1
-                    else:
-                        ind_col = 0
-                        ind_row += 1
-                if ind_row == nsites:
-                    is_permutation_matrix = True
-                else:
-                    ind_diag += 1
-            else:
-                ind_diag += 1
-
-        new_s1 = [row for row in range(nsites) if round(transfer_matrix[row, site_1], 10) == 1][0]
-        new_s2 = [row for row in range(nsites) if round(transfer_matrix[row, site_2], 10) == 1][0]
-        new_s3 = [row for row in range(nsites) if round(transfer_matrix[row, site_3], 10) == 1][0]
-
-        return is_bond_linear(configuration_periodic, new_s1, new_s2, new_s3)
+    else: # Whatever the indexing, in a rectangular lattice, the two end sites share a single neighbor (site_2) if the sites are colinear, \
+            # and two neighbors (two opposite corners of a tile) if they are orthogonal
+        return bool(np.dot(bond_matrix[site_1], bond_matrix[site_3]) == 1)
 
 
 # Display functions
-- 
2.43.0


From e4e651231352bbff106f184f76d5861310eea6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:39 +0000
Subject: [PATCH 04/29] fix: alignment test around peripheral sites of blocks
 of width or height one

A site of such a block lies between two opposite sides of the peripheral
lattice, and its vertical neighbors have consecutive indices; both cases
were classified as if the block were at least two sites wide.
---
 baseConstruction.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/baseConstruction.py b/baseConstruction.py
index 344530e..ef4b522 100644
--- a/baseConstruction.py
+++ b/baseConstruction.py
@@ -339,10 +339,13 @@ def is_bond_linear(configuration, site1, site2, site3): # Should implement metho
             return is_bond_linear(configuration_periodic, site_1, site_2, site_3)
         elif site_1 >= nsites and site_2 >= nsites and site_3 >= nsites: # If sites are all on the peripheral lattice, there are obviously colinear
             return True
-        elif len([site for site in (site_1, site_2, site_3) if site >= nsites]) == 2: # If 2 sites are on the peripheral lattice, the last one can't be colinear
-            return False 
+        elif len([site for site in (site_1, site_2, site_3) if site >= nsites]) == 2: # If 2 sites are on the peripheral lattice, the last one can't be colinear, \
+                                                                                      # unless it lies between two opposite sides of the peripheral lattice
+            is_vertical = [(site >= nsites and site < nsites + nbh * nblocs_side) or (site >= nsites + (nbh + nbv) * nblocs_side \
+                and site < nsites + (2 * nbh + nbv) * nblocs_side) for site in (site_1, site_3)]
+            return site_2 < nsites and is_vertical[0] == is_vertical[1]
         else: # There is one site on the peripheral lattice
-            if abs(site_2 - site_1) == 1: # First bond horizontal
+            if abs(site_2 - site_1) == 1 and nbh * nblocs_side > 1: # First bond horizontal
                 if (site_3 >= nsites and site_3 < nsites + nbh * nblocs_side) or (site_3 >= nsites + (nbh + nbv) * nblocs_side \
                     and site_3 < nsites + (2 * nbh + nbv) * nblocs_side): # Second bond vertical
                     return False
-- 
2.43.0


From 55e062130ccdfc8bb0f2ffc125a2e25bc45723a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:39 +0000
Subject: [PATCH 05/29] fix: spin flip classifies neighboring holes like the
 static exchange

The flip compared differences of site indices, which only means alignment
in the row by row indexing; in cluster and peripheral lattices it picked
another coupling than the static part of the same bond.
---
 interactions.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/interactions.py b/interactions.py
index cd06656..0f52163 100644
--- a/interactions.py
+++ b/interactions.py
@@ -280,9 +280,8 @@ def compute_spin_flip(configuration, interactions, vect):
 
             ind_neigh_hole_0 = list(set(ind_neigh_0) & set(bC.get_indexes_of(configuration, vect, 0)))
             ind_neigh_hole_1 = list(set(ind_neigh_1) & set(bC.get_indexes_of(configuration, vect, 0)))
-            if (ind_neigh_hole_0 or ind_neigh_hole_1) \
-                and (ind_1 - ind_0 in [abs(ind_0 - ind_hole) for ind_hole in ind_neigh_hole_0] + \
-                [abs(ind_1 - ind_hole) for ind_hole in ind_neigh_hole_1]): # Check if a neighboring hole is aligned with the pair
+            if True in [bC.is_bond_linear(configuration, ind_1, ind_0, ind_hole) for ind_hole in ind_neigh_hole_0 + ind_neigh_hole_1]: \
+                # Check if a neighboring hole is aligned with the pair
                 
                 images_par.append(bC.reorder_basis_element(configuration, temp))
 
-- 
2.43.0


From b3b03a2727b2b6d0e5cae26e5886b76fc4d76a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:39 +0000
Subject: [PATCH 06/29] fix: spin flip couplings of a determinant are half the
 exchange, as in the Hamiltonian

compute_dynamic_interactions weighted the flips with J while the matrix
element is J/2; also drop its leftover debugging output.
---
 interactions.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/interactions.py b/interactions.py
index 0f52163..0ae4bc4 100644
--- a/interactions.py
+++ b/interactions.py
@@ -517,12 +517,9 @@ def compute_dynamic_interactions(configuration, interactions, bool_interactions,
     if btN:
         tN_col_coupled, tN_ortho_coupled = compute_next_hopping_integral(configuration, interactions, det)
         events += [(tN_col_coupled, tnNNN), (tN_ortho_coupled, tNNN)]
-        print("[itr] det = ", det)
-        print("[itr] tN_col_coupled = ", tN_col_coupled)
-        print("[itr] tN_ortho_coupled = ", tN_ortho_coupled)
     if bij:
         Jcol_coupled, Jortho_coupled, J_coupled = compute_spin_flip(configuration, interactions, det)
-        events += [(Jcol_coupled, Jhpar), (Jortho_coupled, Jhper), (J_coupled, J)]
+        events += [(Jcol_coupled, Jhpar/2), (Jortho_coupled, Jhper/2), (J_coupled, J/2)]
     if bSD:
         hpar_coupled, hper_coupled = compute_singlet_displacement(configuration, interactions, det)
         singlet_events = [(hpar_coupled, hSDpar), (hper_coupled, hSDper)]
-- 
2.43.0


From 65c80d0c4a1e289320c25024564926a53c5c14be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:53 +0000
Subject: [PATCH 07/29] fix: build_hamiltonian honours its sites_restriction
 argument

The documented argument was computed and never used, so a restricted
Hamiltonian silently came out unrestricted.
---
 hamiltonianConstruction.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hamiltonianConstruction.py b/hamiltonianConstruction.py
index 93627e2..d56e07d 100644
--- a/hamiltonianConstruction.py
+++ b/hamiltonianConstruction.py
@@ -1,4 +1,6 @@
 import latticeFunctions as lF
+import baseConstruction as bC
+import copy
 import numpy as np
 import interactions as itr
 import scipy.sparse as sp
@@ -40,8 +42,10 @@ def build_hamiltonian(configuration, interactions, basis, bool_interactions, sit
     nalpha = configuration.nalpha
     nbeta = configuration.nbeta
     nsites = configuration.nsites
-    if not sites_restriction:
-        sites_restriction = list(range(nsites))
+    if sites_restriction:
+        configuration = copy.copy(basis.configuration)
+        configuration.sites_restriction = (sites_restriction, sites_restriction)
+        basis = bC.Basis(configuration, basis.determinants)
 
     dim = lF.compute_dimension(nsites,nalpha,nbeta)
     # Interactions booleans
-- 
2.43.0


From a44b3d9440580950fc44ed0fc605c8444934250d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:13 +0000
Subject: [PATCH 08/29] fix: display of a basis and of dominant determinants

Both passed the basis where the configuration is expected and raised
AttributeError for every input.
---
 baseConstruction.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/baseConstruction.py b/baseConstruction.py
index ef4b522..121da58 100644
--- a/baseConstruction.py
+++ b/baseConstruction.py
@@ -397,11 +397,12 @@ def get_displayable_basis(basis):
     Returns:
         print_basis (list<list<str>>): a printable representation of the basis
     """
+    configuration = basis.configuration
     determinants = basis.determinants
     
     print_basis = []
     for det in determinants :
-        print_basis.append(get_displayable_determinant(basis, det))
+        print_basis.append(get_displayable_determinant(configuration, det))
     return print_basis
     
 def get_displayable_rectangular_lattice(configuration, vect):
@@ -740,7 +741,7 @@ def get_displayable_dominant_determinants(basis, vect, ndet):
         list_det (list<str>): the list of corresponding determinants in the basis, as a displayable string
     """
     list_coeffs, list_dets = get_dominant_determinants(basis, vect, ndet)
-    list_dets_displayable = [get_displayable_rectangular_lattice(basis, det) for det in list_dets]
+    list_dets_displayable = [get_displayable_rectangular_lattice(basis.configuration, det) for det in list_dets]
     return (list_coeffs, list_dets_displayable)
 
 ### Symmetry functions
-- 
2.43.0


From bb8e0aaa25f70bc8df418b121bed4f61c0920a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:31 +0000
Subject: [PATCH 09/29] fix: rectangular probability map is normalized once

The site probabilities are already divided by the squared norm of the
state; dividing again gave wrong maps for states that are not normalized.
---
 baseConstruction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baseConstruction.py b/baseConstruction.py
index 121da58..bed5a74 100644
--- a/baseConstruction.py
+++ b/baseConstruction.py
@@ -692,7 +692,7 @@ def get_probability_spin_rectangular_lattice(basis, vect, spin):
             ind_site = ind_v * nblocs_side * nbh + ind_h 
             
             proba_sites = get_probability_spin_lattice(basis, vect, spin)
-            proba_lattice[nblocs_side * nbv - 1 - ind_v, ind_h] = proba_sites[ind_site] / (np.linalg.norm(vect) ** 2)
+            proba_lattice[nblocs_side * nbv - 1 - ind_v, ind_h] = proba_sites[ind_site]
     return proba_lattice
 
         
-- 
2.43.0


From 3ef6c491c7119c422ce1dce7675287d2a6b42385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:31 +0000
Subject: [PATCH 10/29] fix: dominant determinants with equal amplitudes are
 all listed

Looking an amplitude up by value returned its first occurrence for every
tie, so one determinant was repeated and the others were lost.
---
 baseConstruction.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/baseConstruction.py b/baseConstruction.py
index bed5a74..09cbe60 100644
--- a/baseConstruction.py
+++ b/baseConstruction.py
@@ -719,13 +719,13 @@ def get_dominant_determinants(basis, vect, ndet):
     temp_vect = temp_vect.tolist()
     
     abs_temp_vect = [abs(elt) for elt in temp_vect]
-    sorted_abs_temp_vect = sorted(abs_temp_vect, reverse=True)[:min(ndet, len(temp_vect))]
+    sorted_indexes = sorted(range(len(temp_vect)), key=lambda ind: abs_temp_vect[ind], reverse=True)[:min(ndet, len(temp_vect))]
     
     # Determination of the most dominant determinants and their indexes
     list_dets, list_coeffs = [], []
-    for abs_elt in sorted_abs_temp_vect:
-        list_coeffs.append(temp_vect[abs_temp_vect.index(abs_elt)])
-        list_dets.append(get_hash_basis(nholes, nalpha, nbeta, abs_temp_vect.index(abs_elt)))
+    for ind in sorted_indexes:
+        list_coeffs.append(temp_vect[ind])
+        list_dets.append(get_hash_basis(nholes, nalpha, nbeta, ind))
 
     return (list_coeffs, list_dets)
 
-- 
2.43.0


From 6109cba9602bbc6ddb36c391d4cdb9557b510b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:31 +0000
Subject: [PATCH 11/29] fix: loading results restores the lattice type and the
 site restriction

The lattice type was dropped (a loaded cluster or peripheral lattice came
back as periodic) and the restriction came back as a list of two lists,
which the interactions cannot use (TypeError: unhashable list).
---
 initialComputations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/initialComputations.py b/initialComputations.py
index 816e2a9..cbef57c 100644
--- a/initialComputations.py
+++ b/initialComputations.py
@@ -218,9 +218,10 @@ def recover_results(configuration, interactions, diagonalization, bool_interacti
     configuration_class = bC.Configuration(bond_matrix=np.array(configuration["bond_matrix"]), 
         nholes=configuration["nholes"], 
         nbeta=configuration["nbeta"])
-    for key in ["sites_restriction", "nbh", "nbv", "nblocs_side"]:
+    for key in ["sites_restriction", "lattice_type", "nbh", "nbv", "nblocs_side"]:
         if key in configuration.keys():
             setattr(configuration_class, key, configuration[key])
+    configuration_class.sites_restriction = tuple(configuration_class.sites_restriction) # JSON turns tuples into lists
     if "times" in kwargs.keys():
         return DataComputations(\
             Data(
-- 
2.43.0


From 0a8d5c02a3fa62f71b89651c33bb147d02c273ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:31 +0000
Subject: [PATCH 12/29] fix: BoolInteractions keeps bV_embedding

The flag was accepted and dropped, so it was lost on saving and plotting
hole probabilities raised AttributeError.
---
 initialComputations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/initialComputations.py b/initialComputations.py
index cbef57c..3e7217c 100644
--- a/initialComputations.py
+++ b/initialComputations.py
@@ -38,6 +38,7 @@ class BoolInteractions :
         self.bSD = bSD
         self.btN = btN
         self.bV = bV
+        self.bV_embedding = bV_embedding
         self.b_spin_multipicities = b_spin_multipicities
 
 class Times :
-- 
2.43.0


From c820fc7935a8365d87efb8e8ee9209a36b13be10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:48 +0000
Subject: [PATCH 13/29] fix: the embedding and plotting stages name files after
 the selected terms

They appended the tag of every term whether selected or not, so for a
partial selection they looked for (and wrote) another file than the one
save_data writes.
---
 embedding.py      | 8 ++++----
 postProcessing.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/embedding.py b/embedding.py
index 50fec1e..dfdd195 100644
--- a/embedding.py
+++ b/embedding.py
@@ -69,7 +69,7 @@ def embedding_neel(data, self_consistency_tol, max_iter, nb_val=10): # Fix the g
     else:
         extensions = {"bt":"t", "bij":"J", "bSD":"SD", "btN":"tN", "bV":"V"}
         for name in dir(bool_interactions):
-            if name in extensions:
+            if name in extensions and getattr(bool_interactions, name):
                 file_name += extensions[name]
         file_name += ".json"
 
@@ -290,7 +290,7 @@ def save_data_peripheral_embedding(data_computations):
     else:
         extensions = {"bt":"t", "bij":"J", "bSD":"SD", "btN":"tN", "bV":"V"}
         for name in dir(bool_interactions):
-            if name in extensions:
+            if name in extensions and getattr(bool_interactions, name):
                 file_name += extensions[name]
         file_name += ".json"
  
@@ -399,7 +399,7 @@ def embedding_blocks(data, self_consistency_tol, max_iter, dynamic_embedding=Fal
     else:
         extensions = {"bt":"t", "bij":"J", "bSD":"SD", "btN":"tN", "bV":"V"}
         for name in dir(bool_interactions):
-            if name in extensions:
+            if name in extensions and getattr(bool_interactions, name):
                 file_name += extensions[name]
         file_name += ".json"
     if neel_embedding:
@@ -804,7 +804,7 @@ def save_data_embedding_blocks(data_computations, dynamic_embedding, neel_embedd
     else:
         extensions = {"bt":"t", "bij":"J", "bSD":"SD", "btN":"tN", "bV":"V"}
         for name in dir(bool_interactions):
-            if name in extensions:
+            if name in extensions and getattr(bool_interactions, name):
                 file_name += extensions[name]
         file_name += ".json"
  
diff --git a/postProcessing.py b/postProcessing.py
index 47ed361..316fdfb 100644
--- a/postProcessing.py
+++ b/postProcessing.py
@@ -114,7 +114,7 @@ def generate_plots_configuration(data, input_plotting):
         else:
             extensions = {"bt":"t", "bij":"J", "bSD":"SD", "btN":"tN", "bV":"V"}
             for name in dir(bool_interactions):
-                if name in extensions:
+                if name in extensions and getattr(bool_interactions, name):
                     file_name_emb += extensions[name]
             file_name_emb += ".json"
         data_computations_embedding = iC.load_data("Embedding_blocks/" + file_name_emb)
-- 
2.43.0


From 5c7c9723dae342fc8d79dd7e3b10157ea9fbd2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:48 +0000
Subject: [PATCH 14/29] fix: the sweep over configurations keeps the lattice
 type

Every configuration of a sweep was rebuilt as a periodic lattice.
---
 initialComputations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/initialComputations.py b/initialComputations.py
index 3e7217c..6b001f1 100644
--- a/initialComputations.py
+++ b/initialComputations.py
@@ -285,6 +285,7 @@ def perform_configurations_computations(data):
             nholes=nholes, 
             nbeta=nbeta, 
             sites_restriction=configuration.sites_restriction, 
+            lattice_type=configuration.lattice_type, 
             nbh=configuration.nbh, 
             nbv=configuration.nbv, 
             nblocs_side=configuration.nblocs_side)
-- 
2.43.0


From 4152cdab4666d2b38507b5190b95c0a53526c38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:32 +0000
Subject: [PATCH 15/29] fix: serialize results before opening the file that
 holds the previous ones

The savers truncated the file first and serialized afterwards, so a value
that JSON cannot represent destroyed the results of an earlier run.
---
 embedding.py           | 106 +++++++++++++++--------------------------
 initialComputations.py |  37 +++++++-------
 2 files changed, 57 insertions(+), 86 deletions(-)

diff --git a/embedding.py b/embedding.py
index dfdd195..1db6fe5 100644
--- a/embedding.py
+++ b/embedding.py
@@ -295,45 +295,30 @@ def save_data_peripheral_embedding(data_computations):
         file_name += ".json"
  
     # Saving results
+    content = json.dumps({
+        "configuration" : configuration.__to_json__(), 
+        "interactions" : data_computations.data.interactions.__dict__, 
+        "diagonalization" : data_computations.data.diagonalization.__dict__, 
+        "bool_interactions" : data_computations.data.bool_interactions.__dict__,
+        "determinants" : data_computations.determinants, 
+        "hamiltonian" : {
+            "data" : data_computations.hamiltonian.data.tolist(),
+            "indices" : data_computations.hamiltonian.indices.tolist(),
+            "indptr" : data_computations.hamiltonian.indptr.tolist()
+        }, 
+        "eigenstates" : {
+            "eigvals" : data_computations.eigenstates.eigvals,
+            "spins" : data_computations.eigenstates.spins,
+            "eigvects" : data_computations.eigenstates.eigvects.tolist()
+            }
+    })
     try :
         with open("./initialComputations/Peripheral_embedding/{}".format(file_name), "w") as savefile:
-            savefile.write(json.dumps({
-                "configuration" : configuration.__to_json__(), 
-                "interactions" : data_computations.data.interactions.__dict__, 
-                "diagonalization" : data_computations.data.diagonalization.__dict__, 
-                "bool_interactions" : data_computations.data.bool_interactions.__dict__,
-                "determinants" : data_computations.determinants, 
-                "hamiltonian" : {
-                    "data" : data_computations.hamiltonian.data.tolist(),
-                    "indices" : data_computations.hamiltonian.indices.tolist(),
-                    "indptr" : data_computations.hamiltonian.indptr.tolist()
-                }, 
-                "eigenstates" : {
-                    "eigvals" : data_computations.eigenstates.eigvals,
-                    "spins" : data_computations.eigenstates.spins,
-                    "eigvects" : data_computations.eigenstates.eigvects.tolist()
-                    }
-            })) 
+            savefile.write(content)
     except OSError:
         os.mkdir("./initialComputations/Peripheral_embedding")
         with open("./initialComputations/Peripheral_embedding/{}".format(file_name), "w") as savefile:
-            savefile.write(json.dumps({
-                "configuration" : configuration.__to_json__(), 
-                "interactions" : data_computations.data.interactions.__dict__, 
-                "diagonalization" : data_computations.data.diagonalization.__dict__, 
-                "bool_interactions" : data_computations.data.bool_interactions.__dict__,
-                "determinants" : data_computations.determinants, 
-                "hamiltonian" : {
-                    "data" : data_computations.hamiltonian.data.tolist(),
-                    "indices" : data_computations.hamiltonian.indices.tolist(),
-                    "indptr" : data_computations.hamiltonian.indptr.tolist()
-                }, 
-                "eigenstates" : {
-                    "eigvals" : data_computations.eigenstates.eigvals,
-                    "spins" : data_computations.eigenstates.spins,
-                    "eigvects" : data_computations.eigenstates.eigvects.tolist()
-                    }
-            })) 
+            savefile.write(content)
 
 
 # Embedding in neighboring blocks
@@ -809,42 +794,27 @@ def save_data_embedding_blocks(data_computations, dynamic_embedding, neel_embedd
         file_name += ".json"
  
     # Saving results
+    content = json.dumps({
+        "configuration" : configuration.__to_json__(), 
+        "interactions" : data_computations.data.interactions.__dict__, 
+        "diagonalization" : data_computations.data.diagonalization.__dict__, 
+        "bool_interactions" : data_computations.data.bool_interactions.__dict__,
+        "determinants" : data_computations.determinants, 
+        "hamiltonian" : {
+            "data" : data_computations.hamiltonian.data.tolist(),
+            "indices" : data_computations.hamiltonian.indices.tolist(),
+            "indptr" : data_computations.hamiltonian.indptr.tolist()
+        }, 
+        "eigenstates" : {
+            "eigvals" : data_computations.eigenstates.eigvals,
+            "spins" : data_computations.eigenstates.spins,
+            "eigvects" : data_computations.eigenstates.eigvects.tolist()
+            }
+    })
     try :
         with open("./initialComputations/Embedding_blocks/{}".format(file_name), "w") as savefile:
-            savefile.write(json.dumps({
-                "configuration" : configuration.__to_json__(), 
-                "interactions" : data_computations.data.interactions.__dict__, 
-                "diagonalization" : data_computations.data.diagonalization.__dict__, 
-                "bool_interactions" : data_computations.data.bool_interactions.__dict__,
-                "determinants" : data_computations.determinants, 
-                "hamiltonian" : {
-                    "data" : data_computations.hamiltonian.data.tolist(),
-                    "indices" : data_computations.hamiltonian.indices.tolist(),
-                    "indptr" : data_computations.hamiltonian.indptr.tolist()
-                }, 
-                "eigenstates" : {
-                    "eigvals" : data_computations.eigenstates.eigvals,
-                    "spins" : data_computations.eigenstates.spins,
-                    "eigvects" : data_computations.eigenstates.eigvects.tolist()
-                    }
-            })) 
+            savefile.write(content)
     except OSError:
         os.mkdir("./initialComputations/Embedding_blocks")
         with open("./initialComputations/Embedding_blocks/{}".format(file_name), "w") as savefile:
-            savefile.write(json.dumps({
-                "configuration" : configuration.__to_json__(), 
-                "interactions" : data_computations.data.interactions.__dict__, 
-                "diagonalization" : data_computations.data.diagonalization.__dict__, 
-                "bool_interactions" : data_computations.data.bool_interactions.__dict__,
-                "determinants" : data_computations.determinants, 
-                "hamiltonian" : {
-                    "data" : data_computations.hamiltonian.data.tolist(),
-                    "indices" : data_computations.hamiltonian.indices.tolist(),
-                    "indptr" : data_computations.hamiltonian.indptr.tolist()
-                }, 
-                "eigenstates" : {
-                    "eigvals" : data_computations.eigenstates.eigvals,
-                    "spins" : data_computations.eigenstates.spins,
-                    "eigvects" : data_computations.eigenstates.eigvects.tolist()
-                    }
-            })) 
\ No newline at end of file
+            savefile.write(content)
diff --git a/initialComputations.py b/initialComputations.py
index 6b001f1..b9855b2 100644
--- a/initialComputations.py
+++ b/initialComputations.py
@@ -177,25 +177,26 @@ def save_data(data_computations):
         file_name += ".json"
  
     # Saving results
+    content = json.dumps({
+        "configuration" : configuration_dict, 
+        "interactions" : data_computations.data.interactions.__dict__, 
+        "diagonalization" : data_computations.data.diagonalization.__dict__, 
+        "bool_interactions" : data_computations.data.bool_interactions.__dict__,
+        "determinants" : data_computations.determinants, 
+        "hamiltonian" : {
+            "data" : data_computations.hamiltonian.data.tolist(),
+            "indices" : data_computations.hamiltonian.indices.tolist(),
+            "indptr" : data_computations.hamiltonian.indptr.tolist()
+        }, 
+        "eigenstates" : {
+            "eigvals" : data_computations.eigenstates.eigvals,
+            "spins" : data_computations.eigenstates.spins,
+            "eigvects" : data_computations.eigenstates.eigvects.tolist()
+            },
+        "times" : data_computations.times.__dict__
+    })
     with open("./initialComputations/{}".format(file_name), "w") as savefile:
-        savefile.write(json.dumps({
-            "configuration" : configuration_dict, 
-            "interactions" : data_computations.data.interactions.__dict__, 
-            "diagonalization" : data_computations.data.diagonalization.__dict__, 
-            "bool_interactions" : data_computations.data.bool_interactions.__dict__,
-            "determinants" : data_computations.determinants, 
-            "hamiltonian" : {
-                "data" : data_computations.hamiltonian.data.tolist(),
-                "indices" : data_computations.hamiltonian.indices.tolist(),
-                "indptr" : data_computations.hamiltonian.indptr.tolist()
-            }, 
-            "eigenstates" : {
-                "eigvals" : data_computations.eigenstates.eigvals,
-                "spins" : data_computations.eigenstates.spins,
-                "eigvects" : data_computations.eigenstates.eigvects.tolist()
-                },
-            "times" : data_computations.times.__dict__
-        }))
+        savefile.write(content)
 
 def recover_results(configuration, interactions, diagonalization, bool_interactions, determinants, hamiltonian, eigenstates, **kwargs):
     """
-- 
2.43.0


From 74085b8471e20b4fd502c0574da9403c8d06f796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:32 +0000
Subject: [PATCH 16/29] fix: embedding results are saved when an initial guess
 was given

save_data discards the initial guess, the embedding savers did not: the
array made json.dumps raise TypeError at the end of the computation.
---
 embedding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/embedding.py b/embedding.py
index 1db6fe5..8ca7792 100644
--- a/embedding.py
+++ b/embedding.py
@@ -298,7 +298,7 @@ def save_data_peripheral_embedding(data_computations):
     content = json.dumps({
         "configuration" : configuration.__to_json__(), 
         "interactions" : data_computations.data.interactions.__dict__, 
-        "diagonalization" : data_computations.data.diagonalization.__dict__, 
+        "diagonalization" : {**data_computations.data.diagonalization.__dict__, "initial_guess" : None}, # Discarding initial guess
         "bool_interactions" : data_computations.data.bool_interactions.__dict__,
         "determinants" : data_computations.determinants, 
         "hamiltonian" : {
@@ -797,7 +797,7 @@ def save_data_embedding_blocks(data_computations, dynamic_embedding, neel_embedd
     content = json.dumps({
         "configuration" : configuration.__to_json__(), 
         "interactions" : data_computations.data.interactions.__dict__, 
-        "diagonalization" : data_computations.data.diagonalization.__dict__, 
+        "diagonalization" : {**data_computations.data.diagonalization.__dict__, "initial_guess" : None}, # Discarding initial guess
         "bool_interactions" : data_computations.data.bool_interactions.__dict__,
         "determinants" : data_computations.determinants, 
         "hamiltonian" : {
-- 
2.43.0


From 1517b1a791943122ede217b0d80492a1c308a22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:23 +0000
Subject: [PATCH 17/29] fix: Davidson procedure for one eigenpair and for more
 eigenpairs than the dimension

A single initial guess was not normalized, so the residue was scaled by
its norm and the returned vector was not a unit vector; and asking for
more eigenpairs than the matrix has raised IndexError.
---
 davidson.py | 779 ++++++++++++++++++++++++++--------------------------
 1 file changed, 388 insertions(+), 391 deletions(-)

diff --git a/davidson.py b/davidson.py
index 39d2c71..3923dad 100644
--- a/davidson.py
+++ b/davidson.py
@@ -1,391 +1,388 @@
-import math as mp
-import numpy as np
-import numpy.linalg as lin
-np.set_printoptions(linewidth=1000)
-import scipy.sparse as sp
-import scipy.sparse.linalg as slin
-
-import copy
-
-import interactions as itr
-
-from tqdm import tqdm, trange # Install tqdm via pip
-
-class Diagonalization :
-    """
-    Class containing parameters for the diagonalization procedure.
-    """
-    def __init__(self, nb_val, stp, tol, dim_max, initial_guess=None):
-        """
-        Args:
-            nb_val (int): the number of lowest eigenstates to compute
-            stp (int): maximum number of steps
-            tol (float): tolerance for the stopping criteria
-            dim_max (int): limit to the dimension of the search space
-            initial_guess (np.array): the initial guess for the eigenstates
-        """
-        self.nb_val = nb_val
-        self.stp = int(stp)
-        self.tol = tol
-        self.dim_max = dim_max
-        self.initial_guess = initial_guess
-
-class Eigenstates :
-    """
-    Class describing the elements of a list of eigenstates.
-    """
-    def __init__(self, eigvals, spins, eigvects):
-        """
-        Args:
-            eigvals (list<float>): the list of eigenvalues
-            spins (list<float>): the list of spins of the corresponding eigenvectors
-            eigvects (list<np.array>): the list of corresponding eigenvectors
-        """
-        self.eigvals = eigvals
-        self.spins = spins
-        self.eigvects = eigvects
-
-### Davidson algorithm - projections onto unexplored eigenspaces
-
-def davidson_algorithm(A,stp,tol,prec):
-    """
-    Davidson algorithm, yield the lowest eigenstate of the matrix A.
-    Args:
-        A (np.array): diagonalizable matrix
-        stp (int): maximal number of steps
-        tol (float): tolerance for the stopping criteria
-        prec (float): expected precision of the final eigenstate
-    """
-    n = A.shape[0]
-    v0 = np.random.random((n,1))
-    V = np.array(v0)
-    H = np.matmul(V.T, np.matmul(A, V))
-    
-    (eigval, eigvect) = lin.eigh(H)
-    val = list(eigval)
-    ind_lowest = val.index(min(val))
-    lambdaj = eigval[ind_lowest]
-    yj = eigvect[:, [ind_lowest]]
-    
-    uj = np.dot(V, yj)
-    rj = np.dot(A, uj) - lambdaj*uj
-    if lin.norm(rj) < tol :
-        return (lambdaj, uj)
-    else:
-        Mj = lin.inv(np.diag(np.diag(A)) - lambdaj*np.eye(n))
-        tj = np.dot(Mj, rj)
-        V = perform_modified_gram_schmidt(np.append(V, tj, axis=1))
-    while lin.norm(rj) > tol:
-        for _ in range(stp):
-            H = np.matmul(V.T, np.matmul(A, V))
-            
-            (eigval, eigvect) = lin.eigh(H)
-            val = list(eigval)
-            ind_lowest = val.index(min(val))
-            lambdaj = eigval[ind_lowest]
-            yj = eigvect[:, [ind_lowest]]
-            
-            uj = np.dot(V, yj)
-            rj = np.dot(A, uj) - lambdaj*uj
-            if lin.norm(rj) < tol:
-                return (round(lambdaj, prec), uj)
-            else:
-                #Mj=lin.inv(np.diag(np.diag(A))-lambdaj*np.eye(n)) # Jacobi preconditionner
-                Mj = np.eye(n) # Lanczos method
-                tj = np.dot(Mj, rj)
-                V = perform_modified_gram_schmidt(np.append(V, tj, axis=1))
-
-    return (round(lambdaj, prec), uj)
-
-
-def get_lowests_eig(eigvals, eigvects, nb_eig): 
-    """
-    Return the nb_eig lowests eigenvalues and associated eigenvectors
-    Args:
-        eigvals (list<float> or np.array): the list of eigenvalues
-        eigvects (np.array): the corresponding eigenvectors
-    Returns:
-        val_sorted (list<float>): the nb_eig lowests eigenvalues
-        vect_sorted (np.array): the corresponding eigenvectors
-    """
-    eigvals_temp = copy.deepcopy(eigvals)
-    sorted_eigvals = list(sorted(eigvals_temp))[:nb_eig]
-    val_sorted = sorted(list(set(sorted_eigvals)))
-    sorted_indexes = []
-    for val in val_sorted:
-        val_indices = [ind for ind, elt in enumerate(eigvals_temp) if elt == val]
-        val_indices = val_indices[: min(len(val_indices), nb_eig - len(sorted_indexes))]
-        sorted_indexes += val_indices
-    vect_sorted = eigvects[:, sorted_indexes]
-    return (sorted_eigvals, vect_sorted)
-    
-def get_meaningful_corrections(krylov_basis, temp_corrections, droptol, eta, nu, dim_max):
-    """
-    Computes the meaningful corrections to perform in modified_davidson_algorithm
-    Args:
-        krylov_basis (np.array): the basis of the search subspace
-        temp_corrections (np.array): computed corrections, residues multiplied by the preconditionning matrix
-        droptol (float): drop-tolerance for the meaningful corrections
-        eta (float): threshold in the precision for the corrections
-        nu (int): the number of eigenstates yet to compute
-        dim_max (int): limit to the dimension of the search space
-    Returns:
-        corrections (np.array): the meaningful corrections to perform
-    """
-    dim = temp_corrections.shape[0]
-    corrections = np.copy(krylov_basis)
-    block_size_new = 0
-    max_orth = 2
-    for corr in range(nu):
-        ind_k = 0
-        while True :
-            old = lin.norm(temp_corrections[:, corr])
-            for ind_j in range(corrections.shape[1]):
-                temp_corrections[:, corr] = np.dot(np.eye(dim) - \
-                    np.dot(corrections[:,ind_j][:,None], corrections[:,ind_j][None,:]), temp_corrections[:, corr])
-            ind_k += 1
-            if (ind_k == max_orth - 1) or lin.norm(temp_corrections[:, corr]) > eta*old:
-                break
-        if lin.norm(temp_corrections[:, corr]) > droptol:
-            block_size_new += 1
-            correction = temp_corrections[:, [corr]]/lin.norm(temp_corrections[:, corr])
-            corrections = np.append(corrections, correction.tolist(), axis=1)
-    return corrections[:,-block_size_new:]
-
-
-def modified_davidson_algorithm_opt(A, nb_val, init_block_size, stp=100, tol=1e-3, droptol=1e-6, eta=0.1, dim_max=0):
-    """
-    Modified Davidson algorithm for simultaneous computation of the nb_val lowests eigenvectors of csr sparse matrix A0,\
-        using the Davidson preconditionners (C = (diag(A) - lambda_i*I)^-1)
-    Args:
-        A (scipy.sparse.csr_matrix): the matrix we seek to compute the eigenstates
-        nb_val (int): the number of eigenstates to compute
-        init_block_size (int): initial dimension of the search subspace
-        stp (int): maximum number of steps (default to 100)
-        tol (float): tolerance for the stopping criteria on residues (default to 1e-3)
-        eta (float): threshold in the precision for the corrections (0 << eta < 1, default to 0.1)
-        droptol (float): drop-tolerance for the meaningful corrections (default to 1e-6)
-        dim_max (int): limit to the dimension of the search space (default to the dimension of A)
-    Returns:
-        eigenstates (class Eigenstates): the eigenvalues and correponding eigenvectors
-    """
-    dim = A.shape[0]
-    if dim_max == 0:
-        dim_max = dim
-
-    nu_0 = max(init_block_size, nb_val)
-    nb_found = 0
-    block_size = nu_0
-
-    eigvals = []
-    eigvects = np.zeros((dim, nb_val))
-
-    krylov_basis = perform_modified_gram_schmidt(np.random.rand(dim, block_size))
-
-    for _ in range(stp):
-        # Krylov vectors
-        mat_w = A.dot(krylov_basis) 
-        # Rayleigh matrix
-        mat_rayleigh = np.matmul(krylov_basis.T, mat_w)
-        nu = min(mat_rayleigh.shape[0], nu_0 - nb_found)
-        # Eigenpairs
-        eigvals_temp, eigvects_temp = get_lowests_eig(*lin.eigh(mat_rayleigh), nu)
-        # Ritz vectors
-        ritz_vectors = np.matmul(krylov_basis, eigvects_temp)
-        # Residues
-        residues = np.zeros((dim, nu))
-        for col in range(nu):
-            residues[:,col] = eigvals_temp[col] * ritz_vectors[:,col] - np.dot(mat_w, eigvects_temp[:,col])
-        conv_residues = [lin.norm(residues[:,col]) <= tol for col in range(nu)]
-        nc = sum(conv_residues)
-        # Deflation
-        for col, res_ind in enumerate(conv_residues): # Adding converging eigenvector to the solutions
-            nbc = 0
-            if res_ind == True and nb_found < nb_val:
-                eigvals.append(eigvals_temp[col])
-                eigvects[:,nb_found + nbc] = ritz_vectors[:,col]
-                ritz_vectors[:, col], ritz_vectors[:, nbc] = ritz_vectors[:, nbc], ritz_vectors[:, col]
-                nbc += 1
-        nb_found += nc
-        if nb_found >= nb_val:
-            return Eigenstates(eigvals, [], eigvects)
-        # Correction of unsatisfactory residues
-        temp_corrections = np.zeros((dim, nu))
-        for ind in range(nc, nu):
-            temp_corrections[:,ind] = np.dot(lin.inv(np.diag(A.diagonal()) - eigvals_temp[ind]*np.eye(dim)), \
-            residues[:,ind])
-        # Meaningful corrections
-        corrections = get_meaningful_corrections(krylov_basis, temp_corrections, droptol, eta, nu, dim_max)
-        block_size_new = corrections.shape[1]
-        # Iteration
-        if (krylov_basis.shape[0] > dim_max - block_size_new) or (nc != 0) or (block_size_new == 0) : # restart
-            krylov_basis = perform_modified_gram_schmidt(np.concatenate((ritz_vectors[:,nc:], corrections), 1))
-            block_size = nu - nc + block_size_new
-        else : # expansion of the search subspace
-            krylov_basis = perform_modified_gram_schmidt(np.concatenate((krylov_basis, corrections), 1))
-            block_size = block_size_new
-    return Eigenstates(eigvals, [], eigvects)
-
-def modified_davidson_algorithm(A, nb_val, initial_guess=None, stp=100, tol=1e-3, dim_max=0, verbose=False):
-    """
-    Modified Davidson algorithm for simultaneous computation of the nb_val lowests eigenvectors of csr sparse matrix A0,\
-        using the Davidson preconditionners (C = (diag(A) - lambda_i*I)^-1)
-    Args:
-        A (scipy.sparse.csr_matrix): the matrix we seek to compute the eigenstates
-        nb_val (int): the number of eigenstates to compute
-        initial_guess (np.array): the initial guesses for the eigenvectors
-        stp (int): maximum number of steps (default to 100)
-        tol (float): tolerance for the stopping criteria on residues (default to 1e-3)
-        dim_max (int): limit to the dimension of the search space (default to the dimension of A)
-        verbose (bool): Tells if we want to display information about the progression of computations in the shell
-    Returns:
-        eigenstates (class Eigenstates): the eigenvalues and correponding eigenvectors
-    """
-    dim = A.shape[0]
-    if dim_max == 0:
-        dim_max = dim
-    nb_val = min(nb_val, dim_max)
-
-    if initial_guess is None:
-        initial_guess = np.random.rand(dim, nb_val)
-    
-    # Krylov basis (basis of the search space)
-    if nb_val > 1 :
-        krylov_basis = perform_modified_gram_schmidt(initial_guess)
-    else:
-        krylov_basis = initial_guess
-
-    for _ in trange_verbose(stp, verbose):
-        # Krylov vectors
-        mat_w = A.dot(krylov_basis) 
-        # Rayleigh matrix
-        mat_rayleigh = np.matmul(krylov_basis.T, mat_w)
-        # Eigenpairs
-        eigvals_temp, eigvects_temp = get_lowests_eig(*lin.eigh(mat_rayleigh), nb_val)
-        # Ritz vectors
-        ritz_vectors = np.matmul(krylov_basis, eigvects_temp)
-        # Residues
-        residues = np.zeros((dim, nb_val))
-        for col in range(nb_val):
-            residues[:,col] = eigvals_temp[col] * ritz_vectors[:,col] - np.dot(mat_w, eigvects_temp[:,col])
-        conv = True
-        for col in range(nb_val):
-            conv *= lin.norm(residues[:,col]) <= tol
-        if conv == True:
-            print_verbose("Norm of residues : {}".format([lin.norm(residues[:,col]) for col in range(nb_val)]), verbose)
-            return Eigenstates(eigvals_temp, [], ritz_vectors)
-        # Correction of unsatisfactory residues
-        corrections = np.zeros((dim, nb_val))
-        for ind in range(nb_val):
-            preconditionner = sp.csr_matrix(\
-                ([1 / (diag - eigvals_temp[ind]) for diag in A.diagonal()], (range(dim), range(dim)) ), \
-                shape=(dim, dim))
-            corrections[:,ind] = preconditionner.dot(residues[:,ind])
-        # Iteration
-        if krylov_basis.shape[0] > dim_max - nb_val :
-            krylov_basis = perform_modified_gram_schmidt(np.concatenate((ritz_vectors, corrections), 1))
-        else : # expansion of the search subspace
-            krylov_basis = perform_modified_gram_schmidt(np.concatenate((krylov_basis, corrections), 1))
-    print_verbose("Maximum number of iterations exceeded, Davidson procedure could not converge.", verbose)
-    return Eigenstates(eigvals_temp, [], ritz_vectors)
-    
-    
-### Gram-Schmidt procedures
-    
-def perform_modified_gram_schmidt(V):
-    """
-    Performs the modified Gram Schmidt algorithm on a set of vectors vects
-    Args:
-        V (np.array): a set of vectors
-    Returns:
-        Q (np.array): the orthonormalized set of vectors from vects
-    """
-    Q, _ = lin.qr(V) 
-    return Q
-
-    
-def gramSchmidt(V): 
-    """
-    Gram-Schmidt orthonormalization procedure, orthonormalize the columns of the matrix V
-    Args:
-        V (np.array): the set of vectors to orthonormalize
-    Returns:
-        A (np.array): the orthonormalized set of vectors
-    """
-    dim = V.shape[0]
-    A = np.zeros(V.shape) # Orthonormalized columns of V
-    A[:,[0]] = V[:,[0]] / lin.norm(V[:,[0]])
-    for col in range(1, dim):
-        vect = V[:,[col]]
-        for prec in range(col):
-            vect_prec = A[:,[prec]]
-            vect = vect - (np.dot(vect.T, vect_prec) / np.dot(vect_prec.T, vect_prec)) * vect_prec
-        A[:,[col]] = vect / lin.norm(vect)
-    return A
-    
-def perform_matrix_orthogonal_projection(A, vects): # Not complete
-    """
-    Return the matrix A projected and restrained onto the orthogonal space to Span(vects)
-    Args:
-        A (np.array): A matrix
-        vects (np.array): an orthonormal basis of the subspace along which we want to project A
-    Returns:
-        A_proj (np.array): the projection and restriction of the matrix A onto :math:`vects^{\\perp}`
-    """
-    dim = A.shape[1]
-    dim_sub = vects.shape[1]
-    comp_basis = np.ones((dim, dim - dim_sub))
-    basis = np.append(vects, comp_basis, axis=1)
-    projector = perform_modified_gram_schmidt(basis) # orthogonal projector associated to the direct sum : Span(vects) + vects^{\perp}
-    A_proj = np.matmul(projector.T, np.matmul(A, projector))[dim_sub:,dim_sub:]
-    return A_proj
-    
-### Eigenvectors properties
-
-def compute_spin_and_multiplicity(basis, eigvects): # Not complete
-    """
-    Computes the expectation value of S^2 for each computed eigenvector
-    Args:
-        basis (class baseConstruction.Basis): the basis of our configuration
-        eigvect (np.array): the eigenvectors, expressed in this basis, that we want to calculate the spin multiplicity
-    Returns:
-        spins
-        multiplicity
-    """
-    nb_val = eigvects.shape[1]
-    spins = []
-    multiplicity = []
-
-    for ind in range(nb_val):
-        spin = itr.compute_S2_exp_val(basis, eigvects[:,[ind]])
-        spins.append(spin)
-        multiplicity.append(itr.compute_spin_multiplicity(spin))
-    return (spins,multiplicity)
-    
-
-### Utilities
-
-def print_verbose(string, verbose=False):
-    """
-    Prints the string in the shell only if verbose is True.
-    Args:
-        string (str): the string to print in the shell
-        verbose (bool): tells if we print or not string in the shell
-    """
-    if verbose:
-        print("[dav] ", string)
-
-def trange_verbose(steps, verbose=False):
-    """
-    Uses the tqdm package only if verbose == True
-    Args:
-        steps (int): our range
-        verbose (bool): tells if we want or not to print informations about the progression of computations in the shell
-    Returns:
-        range_iter (range or trange): either a range or trange object depending on verbose
-    """
-    if verbose:
-        return trange(steps)
-    else:
-        return range(steps)
-    
+import math as mp
+import numpy as np
+import numpy.linalg as lin
+np.set_printoptions(linewidth=1000)
+import scipy.sparse as sp
+import scipy.sparse.linalg as slin
+
+import copy
+
+import interactions as itr
+
+from tqdm import tqdm, trange # Install tqdm via pip
+
+class Diagonalization :
+    """
+    Class containing parameters for the diagonalization procedure.
+    """
+    def __init__(self, nb_val, stp, tol, dim_max, initial_guess=None):
+        """
+        Args:
+            nb_val (int): the number of lowest eigenstates to compute
+            stp (int): maximum number of steps
+            tol (float): tolerance for the stopping criteria
+            dim_max (int): limit to the dimension of the search space
+            initial_guess (np.array): the initial guess for the eigenstates
+        """
+        self.nb_val = nb_val
+        self.stp = int(stp)
+        self.tol = tol
+        self.dim_max = dim_max
+        self.initial_guess = initial_guess
+
+class Eigenstates :
+    """
+    Class describing the elements of a list of eigenstates.
+    """
+    def __init__(self, eigvals, spins, eigvects):
+        """
+        Args:
+            eigvals (list<float>): the list of eigenvalues
+            spins (list<float>): the list of spins of the corresponding eigenvectors
+            eigvects (list<np.array>): the list of corresponding eigenvectors
+        """
+        self.eigvals = eigvals
+        self.spins = spins
+        self.eigvects = eigvects
+
+### Davidson algorithm - projections onto unexplored eigenspaces
+
+def davidson_algorithm(A,stp,tol,prec):
+    """
+    Davidson algorithm, yield the lowest eigenstate of the matrix A.
+    Args:
+        A (np.array): diagonalizable matrix
+        stp (int): maximal number of steps
+        tol (float): tolerance for the stopping criteria
+        prec (float): expected precision of the final eigenstate
+    """
+    n = A.shape[0]
+    v0 = np.random.random((n,1))
+    V = np.array(v0)
+    H = np.matmul(V.T, np.matmul(A, V))
+    
+    (eigval, eigvect) = lin.eigh(H)
+    val = list(eigval)
+    ind_lowest = val.index(min(val))
+    lambdaj = eigval[ind_lowest]
+    yj = eigvect[:, [ind_lowest]]
+    
+    uj = np.dot(V, yj)
+    rj = np.dot(A, uj) - lambdaj*uj
+    if lin.norm(rj) < tol :
+        return (lambdaj, uj)
+    else:
+        Mj = lin.inv(np.diag(np.diag(A)) - lambdaj*np.eye(n))
+        tj = np.dot(Mj, rj)
+        V = perform_modified_gram_schmidt(np.append(V, tj, axis=1))
+    while lin.norm(rj) > tol:
+        for _ in range(stp):
+            H = np.matmul(V.T, np.matmul(A, V))
+            
+            (eigval, eigvect) = lin.eigh(H)
+            val = list(eigval)
+            ind_lowest = val.index(min(val))
+            lambdaj = eigval[ind_lowest]
+            yj = eigvect[:, [ind_lowest]]
+            
+            uj = np.dot(V, yj)
+            rj = np.dot(A, uj) - lambdaj*uj
+            if lin.norm(rj) < tol:
+                return (round(lambdaj, prec), uj)
+            else:
+                #Mj=lin.inv(np.diag(np.diag(A))-lambdaj*np.eye(n)) # Jacobi preconditionner
+                Mj = np.eye(n) # Lanczos method
+                tj = np.dot(Mj, rj)
+                V = perform_modified_gram_schmidt(np.append(V, tj, axis=1))
+
+    return (round(lambdaj, prec), uj)
+
+
+def get_lowests_eig(eigvals, eigvects, nb_eig): 
+    """
+    Return the nb_eig lowests eigenvalues and associated eigenvectors
+    Args:
+        eigvals (list<float> or np.array): the list of eigenvalues
+        eigvects (np.array): the corresponding eigenvectors
+    Returns:
+        val_sorted (list<float>): the nb_eig lowests eigenvalues
+        vect_sorted (np.array): the corresponding eigenvectors
+    """
+    eigvals_temp = copy.deepcopy(eigvals)
+    sorted_eigvals = list(sorted(eigvals_temp))[:nb_eig]
+    val_sorted = sorted(list(set(sorted_eigvals)))
+    sorted_indexes = []
+    for val in val_sorted:
+        val_indices = [ind for ind, elt in enumerate(eigvals_temp) if elt == val]
+        val_indices = val_indices[: min(len(val_indices), nb_eig - len(sorted_indexes))]
+        sorted_indexes += val_indices
+    vect_sorted = eigvects[:, sorted_indexes]
+    return (sorted_eigvals, vect_sorted)
+    
+def get_meaningful_corrections(krylov_basis, temp_corrections, droptol, eta, nu, dim_max):
+    """
+    Computes the meaningful corrections to perform in modified_davidson_algorithm
+    Args:
+        krylov_basis (np.array): the basis of the search subspace
+        temp_corrections (np.array): computed corrections, residues multiplied by the preconditionning matrix
+        droptol (float): drop-tolerance for the meaningful corrections
+        eta (float): threshold in the precision for the corrections
+        nu (int): the number of eigenstates yet to compute
+        dim_max (int): limit to the dimension of the search space
+    Returns:
+        corrections (np.array): the meaningful corrections to perform
+    """
+    dim = temp_corrections.shape[0]
+    corrections = np.copy(krylov_basis)
+    block_size_new = 0
+    max_orth = 2
+    for corr in range(nu):
+        ind_k = 0
+        while True :
+            old = lin.norm(temp_corrections[:, corr])
+            for ind_j in range(corrections.shape[1]):
+                temp_corrections[:, corr] = np.dot(np.eye(dim) - \
+                    np.dot(corrections[:,ind_j][:,None], corrections[:,ind_j][None,:]), temp_corrections[:, corr])
+            ind_k += 1
+            if (ind_k == max_orth - 1) or lin.norm(temp_corrections[:, corr]) > eta*old:
+                break
+        if lin.norm(temp_corrections[:, corr]) > droptol:
+            block_size_new += 1
+            correction = temp_corrections[:, [corr]]/lin.norm(temp_corrections[:, corr])
+            corrections = np.append(corrections, correction.tolist(), axis=1)
+    return corrections[:,-block_size_new:]
+
+
+def modified_davidson_algorithm_opt(A, nb_val, init_block_size, stp=100, tol=1e-3, droptol=1e-6, eta=0.1, dim_max=0):
+    """
+    Modified Davidson algorithm for simultaneous computation of the nb_val lowests eigenvectors of csr sparse matrix A0,\
+        using the Davidson preconditionners (C = (diag(A) - lambda_i*I)^-1)
+    Args:
+        A (scipy.sparse.csr_matrix): the matrix we seek to compute the eigenstates
+        nb_val (int): the number of eigenstates to compute
+        init_block_size (int): initial dimension of the search subspace
+        stp (int): maximum number of steps (default to 100)
+        tol (float): tolerance for the stopping criteria on residues (default to 1e-3)
+        eta (float): threshold in the precision for the corrections (0 << eta < 1, default to 0.1)
+        droptol (float): drop-tolerance for the meaningful corrections (default to 1e-6)
+        dim_max (int): limit to the dimension of the search space (default to the dimension of A)
+    Returns:
+        eigenstates (class Eigenstates): the eigenvalues and correponding eigenvectors
+    """
+    dim = A.shape[0]
+    if dim_max == 0:
+        dim_max = dim
+
+    nu_0 = max(init_block_size, nb_val)
+    nb_found = 0
+    block_size = nu_0
+
+    eigvals = []
+    eigvects = np.zeros((dim, nb_val))
+
+    krylov_basis = perform_modified_gram_schmidt(np.random.rand(dim, block_size))
+
+    for _ in range(stp):
+        # Krylov vectors
+        mat_w = A.dot(krylov_basis) 
+        # Rayleigh matrix
+        mat_rayleigh = np.matmul(krylov_basis.T, mat_w)
+        nu = min(mat_rayleigh.shape[0], nu_0 - nb_found)
+        # Eigenpairs
+        eigvals_temp, eigvects_temp = get_lowests_eig(*lin.eigh(mat_rayleigh), nu)
+        # Ritz vectors
+        ritz_vectors = np.matmul(krylov_basis, eigvects_temp)
+        # Residues
+        residues = np.zeros((dim, nu))
+        for col in range(nu):
+            residues[:,col] = eigvals_temp[col] * ritz_vectors[:,col] - np.dot(mat_w, eigvects_temp[:,col])
+        conv_residues = [lin.norm(residues[:,col]) <= tol for col in range(nu)]
+        nc = sum(conv_residues)
+        # Deflation
+        for col, res_ind in enumerate(conv_residues): # Adding converging eigenvector to the solutions
+            nbc = 0
+            if res_ind == True and nb_found < nb_val:
+                eigvals.append(eigvals_temp[col])
+                eigvects[:,nb_found + nbc] = ritz_vectors[:,col]
+                ritz_vectors[:, col], ritz_vectors[:, nbc] = ritz_vectors[:, nbc], ritz_vectors[:, col]
+                nbc += 1
+        nb_found += nc
+        if nb_found >= nb_val:
+            return Eigenstates(eigvals, [], eigvects)
+        # Correction of unsatisfactory residues
+        temp_corrections = np.zeros((dim, nu))
+        for ind in range(nc, nu):
+            temp_corrections[:,ind] = np.dot(lin.inv(np.diag(A.diagonal()) - eigvals_temp[ind]*np.eye(dim)), \
+            residues[:,ind])
+        # Meaningful corrections
+        corrections = get_meaningful_corrections(krylov_basis, temp_corrections, droptol, eta, nu, dim_max)
+        block_size_new = corrections.shape[1]
+        # Iteration
+        if (krylov_basis.shape[0] > dim_max - block_size_new) or (nc != 0) or (block_size_new == 0) : # restart
+            krylov_basis = perform_modified_gram_schmidt(np.concatenate((ritz_vectors[:,nc:], corrections), 1))
+            block_size = nu - nc + block_size_new
+        else : # expansion of the search subspace
+            krylov_basis = perform_modified_gram_schmidt(np.concatenate((krylov_basis, corrections), 1))
+            block_size = block_size_new
+    return Eigenstates(eigvals, [], eigvects)
+
+def modified_davidson_algorithm(A, nb_val, initial_guess=None, stp=100, tol=1e-3, dim_max=0, verbose=False):
+    """
+    Modified Davidson algorithm for simultaneous computation of the nb_val lowests eigenvectors of csr sparse matrix A0,\
+        using the Davidson preconditionners (C = (diag(A) - lambda_i*I)^-1)
+    Args:
+        A (scipy.sparse.csr_matrix): the matrix we seek to compute the eigenstates
+        nb_val (int): the number of eigenstates to compute
+        initial_guess (np.array): the initial guesses for the eigenvectors
+        stp (int): maximum number of steps (default to 100)
+        tol (float): tolerance for the stopping criteria on residues (default to 1e-3)
+        dim_max (int): limit to the dimension of the search space (default to the dimension of A)
+        verbose (bool): Tells if we want to display information about the progression of computations in the shell
+    Returns:
+        eigenstates (class Eigenstates): the eigenvalues and correponding eigenvectors
+    """
+    dim = A.shape[0]
+    if dim_max == 0:
+        dim_max = dim
+    nb_val = min(nb_val, dim_max, dim)
+
+    if initial_guess is None:
+        initial_guess = np.random.rand(dim, nb_val)
+    
+    # Krylov basis (basis of the search space)
+    krylov_basis = perform_modified_gram_schmidt(initial_guess)
+
+    for _ in trange_verbose(stp, verbose):
+        # Krylov vectors
+        mat_w = A.dot(krylov_basis) 
+        # Rayleigh matrix
+        mat_rayleigh = np.matmul(krylov_basis.T, mat_w)
+        # Eigenpairs
+        eigvals_temp, eigvects_temp = get_lowests_eig(*lin.eigh(mat_rayleigh), nb_val)
+        # Ritz vectors
+        ritz_vectors = np.matmul(krylov_basis, eigvects_temp)
+        # Residues
+        residues = np.zeros((dim, nb_val))
+        for col in range(nb_val):
+            residues[:,col] = eigvals_temp[col] * ritz_vectors[:,col] - np.dot(mat_w, eigvects_temp[:,col])
+        conv = True
+        for col in range(nb_val):
+            conv *= lin.norm(residues[:,col]) <= tol
+        if conv == True:
+            print_verbose("Norm of residues : {}".format([lin.norm(residues[:,col]) for col in range(nb_val)]), verbose)
+            return Eigenstates(eigvals_temp, [], ritz_vectors)
+        # Correction of unsatisfactory residues
+        corrections = np.zeros((dim, nb_val))
+        for ind in range(nb_val):
+            preconditionner = sp.csr_matrix(\
+                ([1 / (diag - eigvals_temp[ind]) for diag in A.diagonal()], (range(dim), range(dim)) ), \
+                shape=(dim, dim))
+            corrections[:,ind] = preconditionner.dot(residues[:,ind])
+        # Iteration
+        if krylov_basis.shape[0] > dim_max - nb_val :
+            krylov_basis = perform_modified_gram_schmidt(np.concatenate((ritz_vectors, corrections), 1))
+        else : # expansion of the search subspace
+            krylov_basis = perform_modified_gram_schmidt(np.concatenate((krylov_basis, corrections), 1))
+    print_verbose("Maximum number of iterations exceeded, Davidson procedure could not converge.", verbose)
+    return Eigenstates(eigvals_temp, [], ritz_vectors)
+    
+    
+### Gram-Schmidt procedures
+    
+def perform_modified_gram_schmidt(V):
+    """
+    Performs the modified Gram Schmidt algorithm on a set of vectors vects
+    Args:
+        V (np.array): a set of vectors
+    Returns:
+        Q (np.array): the orthonormalized set of vectors from vects
+    """
+    Q, _ = lin.qr(V) 
+    return Q
+
+    
+def gramSchmidt(V): 
+    """
+    Gram-Schmidt orthonormalization procedure, orthonormalize the columns of the matrix V
+    Args:
+        V (np.array): the set of vectors to orthonormalize
+    Returns:
+        A (np.array): the orthonormalized set of vectors
+    """
+    dim = V.shape[0]
+    A = np.zeros(V.shape) # Orthonormalized columns of V
+    A[:,[0]] = V[:,[0]] / lin.norm(V[:,[0]])
+    for col in range(1, dim):
+        vect = V[:,[col]]
+        for prec in range(col):
+            vect_prec = A[:,[prec]]
+            vect = vect - (np.dot(vect.T, vect_prec) / np.dot(vect_prec.T, vect_prec)) * vect_prec
+        A[:,[col]] = vect / lin.norm(vect)
+    return A
+    
+def perform_matrix_orthogonal_projection(A, vects): # Not complete
+    """
+    Return the matrix A projected and restrained onto the orthogonal space to Span(vects)
+    Args:
+        A (np.array): A matrix
+        vects (np.array): an orthonormal basis of the subspace along which we want to project A
+    Returns:
+        A_proj (np.array): the projection and restriction of the matrix A onto :math:`vects^{\\perp}`
+    """
+    dim = A.shape[1]
+    dim_sub = vects.shape[1]
+    comp_basis = np.ones((dim, dim - dim_sub))
+    basis = np.append(vects, comp_basis, axis=1)
+    projector = perform_modified_gram_schmidt(basis) # orthogonal projector associated to the direct sum : Span(vects) + vects^{\perp}
+    A_proj = np.matmul(projector.T, np.matmul(A, projector))[dim_sub:,dim_sub:]
+    return A_proj
+    
+### Eigenvectors properties
+
+def compute_spin_and_multiplicity(basis, eigvects): # Not complete
+    """
+    Computes the expectation value of S^2 for each computed eigenvector
+    Args:
+        basis (class baseConstruction.Basis): the basis of our configuration
+        eigvect (np.array): the eigenvectors, expressed in this basis, that we want to calculate the spin multiplicity
+    Returns:
+        spins
+        multiplicity
+    """
+    nb_val = eigvects.shape[1]
+    spins = []
+    multiplicity = []
+
+    for ind in range(nb_val):
+        spin = itr.compute_S2_exp_val(basis, eigvects[:,[ind]])
+        spins.append(spin)
+        multiplicity.append(itr.compute_spin_multiplicity(spin))
+    return (spins,multiplicity)
+    
+
+### Utilities
+
+def print_verbose(string, verbose=False):
+    """
+    Prints the string in the shell only if verbose is True.
+    Args:
+        string (str): the string to print in the shell
+        verbose (bool): tells if we print or not string in the shell
+    """
+    if verbose:
+        print("[dav] ", string)
+
+def trange_verbose(steps, verbose=False):
+    """
+    Uses the tqdm package only if verbose == True
+    Args:
+        steps (int): our range
+        verbose (bool): tells if we want or not to print informations about the progression of computations in the shell
+    Returns:
+        range_iter (range or trange): either a range or trange object depending on verbose
+    """
+    if verbose:
+        return trange(steps)
+    else:
+        return range(steps)
+    
-- 
2.43.0


From d03c5d0ba62270f4f7b0c258921cf17ad1b47b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:23 +0000
Subject: [PATCH 18/29] fix: Davidson preconditioner when an eigenvalue equals
 a diagonal element

The division by zero filled the search space with NaN and the procedure
ended with LinAlgError, for instance on diagonal matrices.
---
 davidson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/davidson.py b/davidson.py
index 3923dad..80451ca 100644
--- a/davidson.py
+++ b/davidson.py
@@ -275,7 +275,7 @@ def modified_davidson_algorithm(A, nb_val, initial_guess=None, stp=100, tol=1e-3
         corrections = np.zeros((dim, nb_val))
         for ind in range(nb_val):
             preconditionner = sp.csr_matrix(\
-                ([1 / (diag - eigvals_temp[ind]) for diag in A.diagonal()], (range(dim), range(dim)) ), \
+                ([1 / (diag - eigvals_temp[ind]) if diag != eigvals_temp[ind] else 1 for diag in A.diagonal()], (range(dim), range(dim)) ), \
                 shape=(dim, dim))
             corrections[:,ind] = preconditionner.dot(residues[:,ind])
         # Iteration
-- 
2.43.0


From d91c985875e42af19ae0576b4b663372bb5fa0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:11 +0000
Subject: [PATCH 19/29] fix: Davidson search space grows until it reaches
 dim_max

The test compared the number of rows of the basis (the dimension of the
matrix) with dim_max, so the procedure restarted at every step and could
stall forever, for instance on small dense matrices.
---
 davidson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/davidson.py b/davidson.py
index 80451ca..8f5843e 100644
--- a/davidson.py
+++ b/davidson.py
@@ -279,7 +279,7 @@ def modified_davidson_algorithm(A, nb_val, initial_guess=None, stp=100, tol=1e-3
                 shape=(dim, dim))
             corrections[:,ind] = preconditionner.dot(residues[:,ind])
         # Iteration
-        if krylov_basis.shape[0] > dim_max - nb_val :
+        if krylov_basis.shape[1] > dim_max - nb_val :
             krylov_basis = perform_modified_gram_schmidt(np.concatenate((ritz_vectors, corrections), 1))
         else : # expansion of the search subspace
             krylov_basis = perform_modified_gram_schmidt(np.concatenate((krylov_basis, corrections), 1))
-- 
2.43.0


From 01df7d19c9a6648660f8708910ad6e5604dd6cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:11 +0000
Subject: [PATCH 20/29] fix: gramSchmidt runs over the columns of a rectangular
 matrix

It took the number of rows as the number of vectors and raised IndexError
for fewer vectors than dimensions.
---
 davidson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/davidson.py b/davidson.py
index 8f5843e..5cf1bca 100644
--- a/davidson.py
+++ b/davidson.py
@@ -309,7 +309,7 @@ def gramSchmidt(V):
     Returns:
         A (np.array): the orthonormalized set of vectors
     """
-    dim = V.shape[0]
+    dim = V.shape[1]
     A = np.zeros(V.shape) # Orthonormalized columns of V
     A[:,[0]] = V[:,[0]] / lin.norm(V[:,[0]])
     for col in range(1, dim):
-- 
2.43.0


From 1a87b9067601f00ac9ec41286df9b53e56bff856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:16 +0000
Subject: [PATCH 21/29] fix: results without computation times can be saved

---
 initialComputations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/initialComputations.py b/initialComputations.py
index b9855b2..0f2a829 100644
--- a/initialComputations.py
+++ b/initialComputations.py
@@ -193,7 +193,7 @@ def save_data(data_computations):
             "spins" : data_computations.eigenstates.spins,
             "eigvects" : data_computations.eigenstates.eigvects.tolist()
             },
-        "times" : data_computations.times.__dict__
+        **({"times" : data_computations.times.__dict__} if data_computations.times is not None else {}) # No times for embeddings
     })
     with open("./initialComputations/{}".format(file_name), "w") as savefile:
         savefile.write(content)
-- 
2.43.0


From 57023cc8dd6773b4eac7f68eacacc12e67766572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:08 +0000
Subject: [PATCH 22/29] fix: restore the CRLF line endings of davidson.py,
 changed by mistake in 1517b1a

---
 davidson.py | 776 ++++++++++++++++++++++++++--------------------------
 1 file changed, 388 insertions(+), 388 deletions(-)

diff --git a/davidson.py b/davidson.py
index 5cf1bca..476fe8a 100644
--- a/davidson.py
+++ b/davidson.py
@@ -1,388 +1,388 @@
-import math as mp
-import numpy as np
-import numpy.linalg as lin
-np.set_printoptions(linewidth=1000)
-import scipy.sparse as sp
-import scipy.sparse.linalg as slin
-
-import copy
-
-import interactions as itr
-
-from tqdm import tqdm, trange # Install tqdm via pip
-
-class Diagonalization :
-    """
-    Class containing parameters for the diagonalization procedure.
-    """
-    def __init__(self, nb_val, stp, tol, dim_max, initial_guess=None):
-        """
-        Args:
-            nb_val (int): the number of lowest eigenstates to compute
-            stp (int): maximum number of steps
-            tol (float): tolerance for the stopping criteria
-            dim_max (int): limit to the dimension of the search space
-            initial_guess (np.array): the initial guess for the eigenstates
-        """
-        self.nb_val = nb_val
-        self.stp = int(stp)
-        self.tol = tol
-        self.dim_max = dim_max
-        self.initial_guess = initial_guess
-
-class Eigenstates :
-    """
-    Class describing the elements of a list of eigenstates.
-    """
-    def __init__(self, eigvals, spins, eigvects):
-        """
-        Args:
-            eigvals (list<float>): the list of eigenvalues
-            spins (list<float>): the list of spins of the corresponding eigenvectors
-            eigvects (list<np.array>): the list of corresponding eigenvectors
-        """
-        self.eigvals = eigvals
-        self.spins = spins
-        self.eigvects = eigvects
-
-### Davidson algorithm - projections onto unexplored eigenspaces
-
-def davidson_algorithm(A,stp,tol,prec):
-    """
-    Davidson algorithm, yield the lowest eigenstate of the matrix A.
-    Args:
-        A (np.array): diagonalizable matrix
-        stp (int): maximal number of steps
-        tol (float): tolerance for the stopping criteria
-        prec (float): expected precision of the final eigenstate
-    """
-    n = A.shape[0]
-    v0 = np.random.random((n,1))
-    V = np.array(v0)
-    H = np.matmul(V.T, np.matmul(A, V))
-    
-    (eigval, eigvect) = lin.eigh(H)
-    val = list(eigval)
-    ind_lowest = val.index(min(val))
-    lambdaj = eigval[ind_lowest]
-    yj = eigvect[:, [ind_lowest]]
-    
-    uj = np.dot(V, yj)
-    rj = np.dot(A, uj) - lambdaj*uj
-    if lin.norm(rj) < tol :
-        return (lambdaj, uj)
-    else:
-        Mj = lin.inv(np.diag(np.diag(A)) - lambdaj*np.eye(n))
-        tj = np.dot(Mj, rj)
-        V = perform_modified_gram_schmidt(np.append(V, tj, axis=1))
-    while lin.norm(rj) > tol:
-        for _ in range(stp):
-            H = np.matmul(V.T, np.matmul(A, V))
-            
-            (eigval, eigvect) = lin.eigh(H)
-            val = list(eigval)
-            ind_lowest = val.index(min(val))
-            lambdaj = eigval[ind_lowest]
-            yj = eigvect[:, [ind_lowest]]
-            
-            uj = np.dot(V, yj)
-            rj = np.dot(A, uj) - lambdaj*uj
-            if lin.norm(rj) < tol:
-                return (round(lambdaj, prec), uj)
-            else:
-                #Mj=lin.inv(np.diag(np.diag(A))-lambdaj*np.eye(n)) # Jacobi preconditionner
-                Mj = np.eye(n) # Lanczos method
-                tj = np.dot(Mj, rj)
-                V = perform_modified_gram_schmidt(np.append(V, tj, axis=1))
-
-    return (round(lambdaj, prec), uj)
-
-
-def get_lowests_eig(eigvals, eigvects, nb_eig): 
-    """
-    Return the nb_eig lowests eigenvalues and associated eigenvectors
-    Args:
-        eigvals (list<float> or np.array): the list of eigenvalues
-        eigvects (np.array): the corresponding eigenvectors
-    Returns:
-        val_sorted (list<float>): the nb_eig lowests eigenvalues
-        vect_sorted (np.array): the corresponding eigenvectors
-    """
-    eigvals_temp = copy.deepcopy(eigvals)
-    sorted_eigvals = list(sorted(eigvals_temp))[:nb_eig]
-    val_sorted = sorted(list(set(sorted_eigvals)))
-    sorted_indexes = []
-    for val in val_sorted:
-        val_indices = [ind for ind, elt in enumerate(eigvals_temp) if elt == val]
-        val_indices = val_indices[: min(len(val_indices), nb_eig - len(sorted_indexes))]
-        sorted_indexes += val_indices
-    vect_sorted = eigvects[:, sorted_indexes]
-    return (sorted_eigvals, vect_sorted)
-    
-def get_meaningful_corrections(krylov_basis, temp_corrections, droptol, eta, nu, dim_max):
-    """
-    Computes the meaningful corrections to perform in modified_davidson_algorithm
-    Args:
-        krylov_basis (np.array): the basis of the search subspace
-        temp_corrections (np.array): computed corrections, residues multiplied by the preconditionning matrix
-        droptol (float): drop-tolerance for the meaningful corrections
-        eta (float): threshold in the precision for the corrections
-        nu (int): the number of eigenstates yet to compute
-        dim_max (int): limit to the dimension of the search space
-    Returns:
-        corrections (np.array): the meaningful corrections to perform
-    """
-    dim = temp_corrections.shape[0]
-    corrections = np.copy(krylov_basis)
-    block_size_new = 0
-    max_orth = 2
-    for corr in range(nu):
-        ind_k = 0
-        while True :
-            old = lin.norm(temp_corrections[:, corr])
-            for ind_j in range(corrections.shape[1]):
-                temp_corrections[:, corr] = np.dot(np.eye(dim) - \
-                    np.dot(corrections[:,ind_j][:,None], corrections[:,ind_j][None,:]), temp_corrections[:, corr])
-            ind_k += 1
-            if (ind_k == max_orth - 1) or lin.norm(temp_corrections[:, corr]) > eta*old:
-                break
-        if lin.norm(temp_corrections[:, corr]) > droptol:
-            block_size_new += 1
-            correction = temp_corrections[:, [corr]]/lin.norm(temp_corrections[:, corr])
-            corrections = np.append(corrections, correction.tolist(), axis=1)
-    return corrections[:,-block_size_new:]
-
-
-def modified_davidson_algorithm_opt(A, nb_val, init_block_size, stp=100, tol=1e-3, droptol=1e-6, eta=0.1, dim_max=0):
-    """
-    Modified Davidson algorithm for simultaneous computation of the nb_val lowests eigenvectors of csr sparse matrix A0,\
-        using the Davidson preconditionners (C = (diag(A) - lambda_i*I)^-1)
-    Args:
-        A (scipy.sparse.csr_matrix): the matrix we seek to compute the eigenstates
-        nb_val (int): the number of eigenstates to compute
-        init_block_size (int): initial dimension of the search subspace
-        stp (int): maximum number of steps (default to 100)
-        tol (float): tolerance for the stopping criteria on residues (default to 1e-3)
-        eta (float): threshold in the precision for the corrections (0 << eta < 1, default to 0.1)
-        droptol (float): drop-tolerance for the meaningful corrections (default to 1e-6)
-        dim_max (int): limit to the dimension of the search space (default to the dimension of A)
-    Returns:
-        eigenstates (class Eigenstates): the eigenvalues and correponding eigenvectors
-    """
-    dim = A.shape[0]
-    if dim_max == 0:
-        dim_max = dim
-
-    nu_0 = max(init_block_size, nb_val)
-    nb_found = 0
-    block_size = nu_0
-
-    eigvals = []
-    eigvects = np.zeros((dim, nb_val))
-
-    krylov_basis = perform_modified_gram_schmidt(np.random.rand(dim, block_size))
-
-    for _ in range(stp):
-        # Krylov vectors
-        mat_w = A.dot(krylov_basis) 
-        # Rayleigh matrix
-        mat_rayleigh = np.matmul(krylov_basis.T, mat_w)
-        nu = min(mat_rayleigh.shape[0], nu_0 - nb_found)
-        # Eigenpairs
-        eigvals_temp, eigvects_temp = get_lowests_eig(*lin.eigh(mat_rayleigh), nu)
-        # Ritz vectors
-        ritz_vectors = np.matmul(krylov_basis, eigvects_temp)
-        # Residues
-        residues = np.zeros((dim, nu))
-        for col in range(nu):
-            residues[:,col] = eigvals_temp[col] * ritz_vectors[:,col] - np.dot(mat_w, eigvects_temp[:,col])
-        conv_residues = [lin.norm(residues[:,col]) <= tol for col in range(nu)]
-        nc = sum(conv_residues)
-        # Deflation
-        for col, res_ind in enumerate(conv_residues): # Adding converging eigenvector to the solutions
-            nbc = 0
-            if res_ind == True and nb_found < nb_val:
-                eigvals.append(eigvals_temp[col])
-                eigvects[:,nb_found + nbc] = ritz_vectors[:,col]
-                ritz_vectors[:, col], ritz_vectors[:, nbc] = ritz_vectors[:, nbc], ritz_vectors[:, col]
-                nbc += 1
-        nb_found += nc
-        if nb_found >= nb_val:
-            return Eigenstates(eigvals, [], eigvects)
-        # Correction of unsatisfactory residues
-        temp_corrections = np.zeros((dim, nu))
-        for ind in range(nc, nu):
-            temp_corrections[:,ind] = np.dot(lin.inv(np.diag(A.diagonal()) - eigvals_temp[ind]*np.eye(dim)), \
-            residues[:,ind])
-        # Meaningful corrections
-        corrections = get_meaningful_corrections(krylov_basis, temp_corrections, droptol, eta, nu, dim_max)
-        block_size_new = corrections.shape[1]
-        # Iteration
-        if (krylov_basis.shape[0] > dim_max - block_size_new) or (nc != 0) or (block_size_new == 0) : # restart
-            krylov_basis = perform_modified_gram_schmidt(np.concatenate((ritz_vectors[:,nc:], corrections), 1))
-            block_size = nu - nc + block_size_new
-        else : # expansion of the search subspace
-            krylov_basis = perform_modified_gram_schmidt(np.concatenate((krylov_basis, corrections), 1))
-            block_size = block_size_new
-    return Eigenstates(eigvals, [], eigvects)
-
-def modified_davidson_algorithm(A, nb_val, initial_guess=None, stp=100, tol=1e-3, dim_max=0, verbose=False):
-    """
-    Modified Davidson algorithm for simultaneous computation of the nb_val lowests eigenvectors of csr sparse matrix A0,\
-        using the Davidson preconditionners (C = (diag(A) - lambda_i*I)^-1)
-    Args:
-        A (scipy.sparse.csr_matrix): the matrix we seek to compute the eigenstates
-        nb_val (int): the number of eigenstates to compute
-        initial_guess (np.array): the initial guesses for the eigenvectors
-        stp (int): maximum number of steps (default to 100)
-        tol (float): tolerance for the stopping criteria on residues (default to 1e-3)
-        dim_max (int): limit to the dimension of the search space (default to the dimension of A)
-        verbose (bool): Tells if we want to display information about the progression of computations in the shell
-    Returns:
-        eigenstates (class Eigenstates): the eigenvalues and correponding eigenvectors
-    """
-    dim = A.shape[0]
-    if dim_max == 0:
-        dim_max = dim
-    nb_val = min(nb_val, dim_max, dim)
-
-    if initial_guess is None:
-        initial_guess = np.random.rand(dim, nb_val)
-    
-    # Krylov basis (basis of the search space)
-    krylov_basis = perform_modified_gram_schmidt(initial_guess)
-
-    for _ in trange_verbose(stp, verbose):
-        # Krylov vectors
-        mat_w = A.dot(krylov_basis) 
-        # Rayleigh matrix
-        mat_rayleigh = np.matmul(krylov_basis.T, mat_w)
-        # Eigenpairs
-        eigvals_temp, eigvects_temp = get_lowests_eig(*lin.eigh(mat_rayleigh), nb_val)
-        # Ritz vectors
-        ritz_vectors = np.matmul(krylov_basis, eigvects_temp)
-        # Residues
-        residues = np.zeros((dim, nb_val))
-        for col in range(nb_val):
-            residues[:,col] = eigvals_temp[col] * ritz_vectors[:,col] - np.dot(mat_w, eigvects_temp[:,col])
-        conv = True
-        for col in range(nb_val):
-            conv *= lin.norm(residues[:,col]) <= tol
-        if conv == True:
-            print_verbose("Norm of residues : {}".format([lin.norm(residues[:,col]) for col in range(nb_val)]), verbose)
-            return Eigenstates(eigvals_temp, [], ritz_vectors)
-        # Correction of unsatisfactory residues
-        corrections = np.zeros((dim, nb_val))
-        for ind in range(nb_val):
-            preconditionner = sp.csr_matrix(\
-                ([1 / (diag - eigvals_temp[ind]) if diag != eigvals_temp[ind] else 1 for diag in A.diagonal()], (range(dim), range(dim)) ), \
-                shape=(dim, dim))
-            corrections[:,ind] = preconditionner.dot(residues[:,ind])
-        # Iteration
-        if krylov_basis.shape[1] > dim_max - nb_val :
-            krylov_basis = perform_modified_gram_schmidt(np.concatenate((ritz_vectors, corrections), 1))
-        else : # expansion of the search subspace
-            krylov_basis = perform_modified_gram_schmidt(np.concatenate((krylov_basis, corrections), 1))
-    print_verbose("Maximum number of iterations exceeded, Davidson procedure could not converge.", verbose)
-    return Eigenstates(eigvals_temp, [], ritz_vectors)
-    
-    
-### Gram-Schmidt procedures
-    
-def perform_modified_gram_schmidt(V):
-    """
-    Performs the modified Gram Schmidt algorithm on a set of vectors vects
-    Args:
-        V (np.array): a set of vectors
-    Returns:
-        Q (np.array): the orthonormalized set of vectors from vects
-    """
-    Q, _ = lin.qr(V) 
-    return Q
-
-    
-def gramSchmidt(V): 
-    """
-    Gram-Schmidt orthonormalization procedure, orthonormalize the columns of the matrix V
-    Args:
-        V (np.array): the set of vectors to orthonormalize
-    Returns:
-        A (np.array): the orthonormalized set of vectors
-    """
-    dim = V.shape[1]
-    A = np.zeros(V.shape) # Orthonormalized columns of V
-    A[:,[0]] = V[:,[0]] / lin.norm(V[:,[0]])
-    for col in range(1, dim):
-        vect = V[:,[col]]
-        for prec in range(col):
-            vect_prec = A[:,[prec]]
-            vect = vect - (np.dot(vect.T, vect_prec) / np.dot(vect_prec.T, vect_prec)) * vect_prec
-        A[:,[col]] = vect / lin.norm(vect)
-    return A
-    
-def perform_matrix_orthogonal_projection(A, vects): # Not complete
-    """
-    Return the matrix A projected and restrained onto the orthogonal space to Span(vects)
-    Args:
-        A (np.array): A matrix
-        vects (np.array): an orthonormal basis of the subspace along which we want to project A
-    Returns:
-        A_proj (np.array): the projection and restriction of the matrix A onto :math:`vects^{\\perp}`
-    """
-    dim = A.shape[1]
-    dim_sub = vects.shape[1]
-    comp_basis = np.ones((dim, dim - dim_sub))
-    basis = np.append(vects, comp_basis, axis=1)
-    projector = perform_modified_gram_schmidt(basis) # orthogonal projector associated to the direct sum : Span(vects) + vects^{\perp}
-    A_proj = np.matmul(projector.T, np.matmul(A, projector))[dim_sub:,dim_sub:]
-    return A_proj
-    
-### Eigenvectors properties
-
-def compute_spin_and_multiplicity(basis, eigvects): # Not complete
-    """
-    Computes the expectation value of S^2 for each computed eigenvector
-    Args:
-        basis (class baseConstruction.Basis): the basis of our configuration
-        eigvect (np.array): the eigenvectors, expressed in this basis, that we want to calculate the spin multiplicity
-    Returns:
-        spins
-        multiplicity
-    """
-    nb_val = eigvects.shape[1]
-    spins = []
-    multiplicity = []
-
-    for ind in range(nb_val):
-        spin = itr.compute_S2_exp_val(basis, eigvects[:,[ind]])
-        spins.append(spin)
-        multiplicity.append(itr.compute_spin_multiplicity(spin))
-    return (spins,multiplicity)
-    
-
-### Utilities
-
-def print_verbose(string, verbose=False):
-    """
-    Prints the string in the shell only if verbose is True.
-    Args:
-        string (str): the string to print in the shell
-        verbose (bool): tells if we print or not string in the shell
-    """
-    if verbose:
-        print("[dav] ", string)
-
-def trange_verbose(steps, verbose=False):
-    """
-    Uses the tqdm package only if verbose == True
-    Args:
-        steps (int): our range
-        verbose (bool): tells if we want or not to print informations about the progression of computations in the shell
-    Returns:
-        range_iter (range or trange): either a range or trange object depending on verbose
-    """
-    if verbose:
-        return trange(steps)
-    else:
-        return range(steps)
-    
+import math as mp
+import numpy as np
+import numpy.linalg as lin
+np.set_printoptions(linewidth=1000)
+import scipy.sparse as sp
+import scipy.sparse.linalg as slin
+
+import copy
+
+import interactions as itr
+
+from tqdm import tqdm, trange # Install tqdm via pip
+
+class Diagonalization :
+    """
+    Class containing parameters for the diagonalization procedure.
+    """
+    def __init__(self, nb_val, stp, tol, dim_max, initial_guess=None):
+        """
+        Args:
+            nb_val (int): the number of lowest eigenstates to compute
+            stp (int): maximum number of steps
+            tol (float): tolerance for the stopping criteria
+            dim_max (int): limit to the dimension of the search space
+            initial_guess (np.array): the initial guess for the eigenstates
+        """
+        self.nb_val = nb_val
+        self.stp = int(stp)
+        self.tol = tol
+        self.dim_max = dim_max
+        self.initial_guess = initial_guess
+
+class Eigenstates :
+    """
+    Class describing the elements of a list of eigenstates.
+    """
+    def __init__(self, eigvals, spins, eigvects):
+        """
+        Args:
+            eigvals (list<float>): the list of eigenvalues
+            spins (list<float>): the list of spins of the corresponding eigenvectors
+            eigvects (list<np.array>): the list of corresponding eigenvectors
+        """
+        self.eigvals = eigvals
+        self.spins = spins
+        self.eigvects = eigvects
+
+### Davidson algorithm - projections onto unexplored eigenspaces
+
+def davidson_algorithm(A,stp,tol,prec):
+    """
+    Davidson algorithm, yield the lowest eigenstate of the matrix A.
+    Args:
+        A (np.array): diagonalizable matrix
+        stp (int): maximal number of steps
+        tol (float): tolerance for the stopping criteria
+        prec (float): expected precision of the final eigenstate
+    """
+    n = A.shape[0]
+    v0 = np.random.random((n,1))
+    V = np.array(v0)
+    H = np.matmul(V.T, np.matmul(A, V))
+    
+    (eigval, eigvect) = lin.eigh(H)
+    val = list(eigval)
+    ind_lowest = val.index(min(val))
+    lambdaj = eigval[ind_lowest]
+    yj = eigvect[:, [ind_lowest]]
+    
+    uj = np.dot(V, yj)
+    rj = np.dot(A, uj) - lambdaj*uj
+    if lin.norm(rj) < tol :
+        return (lambdaj, uj)
+    else:
+        Mj = lin.inv(np.diag(np.diag(A)) - lambdaj*np.eye(n))
+        tj = np.dot(Mj, rj)
+        V = perform_modified_gram_schmidt(np.append(V, tj, axis=1))
+    while lin.norm(rj) > tol:
+        for _ in range(stp):
+            H = np.matmul(V.T, np.matmul(A, V))
+            
+            (eigval, eigvect) = lin.eigh(H)
+            val = list(eigval)
+            ind_lowest = val.index(min(val))
+            lambdaj = eigval[ind_lowest]
+            yj = eigvect[:, [ind_lowest]]
+            
+            uj = np.dot(V, yj)
+            rj = np.dot(A, uj) - lambdaj*uj
+            if lin.norm(rj) < tol:
+                return (round(lambdaj, prec), uj)
+            else:
+                #Mj=lin.inv(np.diag(np.diag(A))-lambdaj*np.eye(n)) # Jacobi preconditionner
+                Mj = np.eye(n) # Lanczos method
+                tj = np.dot(Mj, rj)
+                V = perform_modified_gram_schmidt(np.append(V, tj, axis=1))
+
+    return (round(lambdaj, prec), uj)
+
+
+def get_lowests_eig(eigvals, eigvects, nb_eig): 
+    """
+    Return the nb_eig lowests eigenvalues and associated eigenvectors
+    Args:
+        eigvals (list<float> or np.array): the list of eigenvalues
+        eigvects (np.array): the corresponding eigenvectors
+    Returns:
+        val_sorted (list<float>): the nb_eig lowests eigenvalues
+        vect_sorted (np.array): the corresponding eigenvectors
+    """
+    eigvals_temp = copy.deepcopy(eigvals)
+    sorted_eigvals = list(sorted(eigvals_temp))[:nb_eig]
+    val_sorted = sorted(list(set(sorted_eigvals)))
+    sorted_indexes = []
+    for val in val_sorted:
+        val_indices = [ind for ind, elt in enumerate(eigvals_temp) if elt == val]
+        val_indices = val_indices[: min(len(val_indices), nb_eig - len(sorted_indexes))]
+        sorted_indexes += val_indices
+    vect_sorted = eigvects[:, sorted_indexes]
+    return (sorted_eigvals, vect_sorted)
+    
+def get_meaningful_corrections(krylov_basis, temp_corrections, droptol, eta, nu, dim_max):
+    """
+    Computes the meaningful corrections to perform in modified_davidson_algorithm
+    Args:
+        krylov_basis (np.array): the basis of the search subspace
+        temp_corrections (np.array): computed corrections, residues multiplied by the preconditionning matrix
+        droptol (float): drop-tolerance for the meaningful corrections
+        eta (float): threshold in the precision for the corrections
+        nu (int): the number of eigenstates yet to compute
+        dim_max (int): limit to the dimension of the search space
+    Returns:
+        corrections (np.array): the meaningful corrections to perform
+    """
+    dim = temp_corrections.shape[0]
+    corrections = np.copy(krylov_basis)
+    block_size_new = 0
+    max_orth = 2
+    for corr in range(nu):
+        ind_k = 0
+        while True :
+            old = lin.norm(temp_corrections[:, corr])
+            for ind_j in range(corrections.shape[1]):
+                temp_corrections[:, corr] = np.dot(np.eye(dim) - \
+                    np.dot(corrections[:,ind_j][:,None], corrections[:,ind_j][None,:]), temp_corrections[:, corr])
+            ind_k += 1
+            if (ind_k == max_orth - 1) or lin.norm(temp_corrections[:, corr]) > eta*old:
+                break
+        if lin.norm(temp_corrections[:, corr]) > droptol:
+            block_size_new += 1
+            correction = temp_corrections[:, [corr]]/lin.norm(temp_corrections[:, corr])
+            corrections = np.append(corrections, correction.tolist(), axis=1)
+    return corrections[:,-block_size_new:]
+
+
+def modified_davidson_algorithm_opt(A, nb_val, init_block_size, stp=100, tol=1e-3, droptol=1e-6, eta=0.1, dim_max=0):
+    """
+    Modified Davidson algorithm for simultaneous computation of the nb_val lowests eigenvectors of csr sparse matrix A0,\
+        using the Davidson preconditionners (C = (diag(A) - lambda_i*I)^-1)
+    Args:
+        A (scipy.sparse.csr_matrix): the matrix we seek to compute the eigenstates
+        nb_val (int): the number of eigenstates to compute
+        init_block_size (int): initial dimension of the search subspace
+        stp (int): maximum number of steps (default to 100)
+        tol (float): tolerance for the stopping criteria on residues (default to 1e-3)
+        eta (float): threshold in the precision for the corrections (0 << eta < 1, default to 0.1)
+        droptol (float): drop-tolerance for the meaningful corrections (default to 1e-6)
+        dim_max (int): limit to the dimension of the search space (default to the dimension of A)
+    Returns:
+        eigenstates (class Eigenstates): the eigenvalues and correponding eigenvectors
+    """
+    dim = A.shape[0]
+    if dim_max == 0:
+        dim_max = dim
+
+    nu_0 = max(init_block_size, nb_val)
+    nb_found = 0
+    block_size = nu_0
+
+    eigvals = []
+    eigvects = np.zeros((dim, nb_val))
+
+    krylov_basis = perform_modified_gram_schmidt(np.random.rand(dim, block_size))
+
+    for _ in range(stp):
+        # Krylov vectors
+        mat_w = A.dot(krylov_basis) 
+        # Rayleigh matrix
+        mat_rayleigh = np.matmul(krylov_basis.T, mat_w)
+        nu = min(mat_rayleigh.shape[0], nu_0 - nb_found)
+        # Eigenpairs
+        eigvals_temp, eigvects_temp = get_lowests_eig(*lin.eigh(mat_rayleigh), nu)
+        # Ritz vectors
+        ritz_vectors = np.matmul(krylov_basis, eigvects_temp)
+        # Residues
+        residues = np.zeros((dim, nu))
+        for col in range(nu):
+            residues[:,col] = eigvals_temp[col] * ritz_vectors[:,col] - np.dot(mat_w, eigvects_temp[:,col])
+        conv_residues = [lin.norm(residues[:,col]) <= tol for col in range(nu)]
+        nc = sum(conv_residues)
+        # Deflation
+        for col, res_ind in enumerate(conv_residues): # Adding converging eigenvector to the solutions
+            nbc = 0
+            if res_ind == True and nb_found < nb_val:
+                eigvals.append(eigvals_temp[col])
+                eigvects[:,nb_found + nbc] = ritz_vectors[:,col]
+                ritz_vectors[:, col], ritz_vectors[:, nbc] = ritz_vectors[:, nbc], ritz_vectors[:, col]
+                nbc += 1
+        nb_found += nc
+        if nb_found >= nb_val:
+            return Eigenstates(eigvals, [], eigvects)
+        # Correction of unsatisfactory residues
+        temp_corrections = np.zeros((dim, nu))
+        for ind in range(nc, nu):
+            temp_corrections[:,ind] = np.dot(lin.inv(np.diag(A.diagonal()) - eigvals_temp[ind]*np.eye(dim)), \
+            residues[:,ind])
+        # Meaningful corrections
+        corrections = get_meaningful_corrections(krylov_basis, temp_corrections, droptol, eta, nu, dim_max)
+        block_size_new = corrections.shape[1]
+        # Iteration
+        if (krylov_basis.shape[0] > dim_max - block_size_new) or (nc != 0) or (block_size_new == 0) : # restart
+            krylov_basis = perform_modified_gram_schmidt(np.concatenate((ritz_vectors[:,nc:], corrections), 1))
+            block_size = nu - nc + block_size_new
+        else : # expansion of the search subspace
+            krylov_basis = perform_modified_gram_schmidt(np.concatenate((krylov_basis, corrections), 1))
+            block_size = block_size_new
+    return Eigenstates(eigvals, [], eigvects)
+
+def modified_davidson_algorithm(A, nb_val, initial_guess=None, stp=100, tol=1e-3, dim_max=0, verbose=False):
+    """
+    Modified Davidson algorithm for simultaneous computation of the nb_val lowests eigenvectors of csr sparse matrix A0,\
+        using the Davidson preconditionners (C = (diag(A) - lambda_i*I)^-1)
+    Args:
+        A (scipy.sparse.csr_matrix): the matrix we seek to compute the eigenstates
+        nb_val (int): the number of eigenstates to compute
+        initial_guess (np.array): the initial guesses for the eigenvectors
+        stp (int): maximum number of steps (default to 100)
+        tol (float): tolerance for the stopping criteria on residues (default to 1e-3)
+        dim_max (int): limit to the dimension of the search space (default to the dimension of A)
+        verbose (bool): Tells if we want to display information about the progression of computations in the shell
+    Returns:
+        eigenstates (class Eigenstates): the eigenvalues and correponding eigenvectors
+    """
+    dim = A.shape[0]
+    if dim_max == 0:
+        dim_max = dim
+    nb_val = min(nb_val, dim_max, dim)
+
+    if initial_guess is None:
+        initial_guess = np.random.rand(dim, nb_val)
+    
+    # Krylov basis (basis of the search space)
+    krylov_basis = perform_modified_gram_schmidt(initial_guess)
+
+    for _ in trange_verbose(stp, verbose):
+        # Krylov vectors
+        mat_w = A.dot(krylov_basis) 
+        # Rayleigh matrix
+        mat_rayleigh = np.matmul(krylov_basis.T, mat_w)
+        # Eigenpairs
+        eigvals_temp, eigvects_temp = get_lowests_eig(*lin.eigh(mat_rayleigh), nb_val)
+        # Ritz vectors
+        ritz_vectors = np.matmul(krylov_basis, eigvects_temp)
+        # Residues
+        residues = np.zeros((dim, nb_val))
+        for col in range(nb_val):
+            residues[:,col] = eigvals_temp[col] * ritz_vectors[:,col] - np.dot(mat_w, eigvects_temp[:,col])
+        conv = True
+        for col in range(nb_val):
+            conv *= lin.norm(residues[:,col]) <= tol
+        if conv == True:
+            print_verbose("Norm of residues : {}".format([lin.norm(residues[:,col]) for col in range(nb_val)]), verbose)
+            return Eigenstates(eigvals_temp, [], ritz_vectors)
+        # Correction of unsatisfactory residues
+        corrections = np.zeros((dim, nb_val))
+        for ind in range(nb_val):
+            preconditionner = sp.csr_matrix(\
+                ([1 / (diag - eigvals_temp[ind]) if diag != eigvals_temp[ind] else 1 for diag in A.diagonal()], (range(dim), range(dim)) ), \
+                shape=(dim, dim))
+            corrections[:,ind] = preconditionner.dot(residues[:,ind])
+        # Iteration
+        if krylov_basis.shape[1] > dim_max - nb_val :
+            krylov_basis = perform_modified_gram_schmidt(np.concatenate((ritz_vectors, corrections), 1))
+        else : # expansion of the search subspace
+            krylov_basis = perform_modified_gram_schmidt(np.concatenate((krylov_basis, corrections), 1))
+    print_verbose("Maximum number of iterations exceeded, Davidson procedure could not converge.", verbose)
+    return Eigenstates(eigvals_temp, [], ritz_vectors)
+    
+    
+### Gram-Schmidt procedures
+    
+def perform_modified_gram_schmidt(V):
+    """
+    Performs the modified Gram Schmidt algorithm on a set of vectors vects
+    Args:
+        V (np.array): a set of vectors
+    Returns:
+        Q (np.array): the orthonormalized set of vectors from vects
+    """
+    Q, _ = lin.qr(V) 
+    return Q
+
+    
+def gramSchmidt(V): 
+    """
+    Gram-Schmidt orthonormalization procedure, orthonormalize the columns of the matrix V
+    Args:
+        V (np.array): the set of vectors to orthonormalize
+    Returns:
+        A (np.array): the orthonormalized set of vectors
+    """
+    dim = V.shape[1]
+    A = np.zeros(V.shape) # Orthonormalized columns of V
+    A[:,[0]] = V[:,[0]] / lin.norm(V[:,[0]])
+    for col in range(1, dim):
+        vect = V[:,[col]]
+        for prec in range(col):
+            vect_prec = A[:,[prec]]
+            vect = vect - (np.dot(vect.T, vect_prec) / np.dot(vect_prec.T, vect_prec)) * vect_prec
+        A[:,[col]] = vect / lin.norm(vect)
+    return A
+    
+def perform_matrix_orthogonal_projection(A, vects): # Not complete
+    """
+    Return the matrix A projected and restrained onto the orthogonal space to Span(vects)
+    Args:
+        A (np.array): A matrix
+        vects (np.array): an orthonormal basis of the subspace along which we want to project A
+    Returns:
+        A_proj (np.array): the projection and restriction of the matrix A onto :math:`vects^{\\perp}`
+    """
+    dim = A.shape[1]
+    dim_sub = vects.shape[1]
+    comp_basis = np.ones((dim, dim - dim_sub))
+    basis = np.append(vects, comp_basis, axis=1)
+    projector = perform_modified_gram_schmidt(basis) # orthogonal projector associated to the direct sum : Span(vects) + vects^{\perp}
+    A_proj = np.matmul(projector.T, np.matmul(A, projector))[dim_sub:,dim_sub:]
+    return A_proj
+    
+### Eigenvectors properties
+
+def compute_spin_and_multiplicity(basis, eigvects): # Not complete
+    """
+    Computes the expectation value of S^2 for each computed eigenvector
+    Args:
+        basis (class baseConstruction.Basis): the basis of our configuration
+        eigvect (np.array): the eigenvectors, expressed in this basis, that we want to calculate the spin multiplicity
+    Returns:
+        spins
+        multiplicity
+    """
+    nb_val = eigvects.shape[1]
+    spins = []
+    multiplicity = []
+
+    for ind in range(nb_val):
+        spin = itr.compute_S2_exp_val(basis, eigvects[:,[ind]])
+        spins.append(spin)
+        multiplicity.append(itr.compute_spin_multiplicity(spin))
+    return (spins,multiplicity)
+    
+
+### Utilities
+
+def print_verbose(string, verbose=False):
+    """
+    Prints the string in the shell only if verbose is True.
+    Args:
+        string (str): the string to print in the shell
+        verbose (bool): tells if we print or not string in the shell
+    """
+    if verbose:
+        print("[dav] ", string)
+
+def trange_verbose(steps, verbose=False):
+    """
+    Uses the tqdm package only if verbose == True
+    Args:
+        steps (int): our range
+        verbose (bool): tells if we want or not to print informations about the progression of computations in the shell
+    Returns:
+        range_iter (range or trange): either a range or trange object depending on verbose
+    """
+    if verbose:
+        return trange(steps)
+    else:
+        return range(steps)
+    
-- 
2.43.0


From 0b635b89466b1bddce9a40cede9cbfda929b7446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:55 +0000
Subject: [PATCH 23/29] fix: a hole does not hop onto another hole when the
 sites restriction has two different ends

---
 interactions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interactions.py b/interactions.py
index 0ae4bc4..59ecfac 100644
--- a/interactions.py
+++ b/interactions.py
@@ -66,7 +66,7 @@ def compute_hopping_integral(configuration, interactions, det):
         for site_hole in sites_holes:
             hole_neighbors = lF.get_neighbors(site_hole, bond_matrix, sites_restriction)
             for neighbor in hole_neighbors:
-                if not(neighbor in sites_holes):
+                if not(neighbor in det[:nholes]):
                     ind_hole = det.index(site_hole)
                     ind_neighbor = det.index(neighbor)
                     temp = copy.deepcopy(det)
-- 
2.43.0


From 56ee80ae7863b1293e5fc48fea8527a46230d505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:56 +0000
Subject: [PATCH 24/29] fix: pictures with a single panel can be drawn

---
 postProcessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postProcessing.py b/postProcessing.py
index 316fdfb..22f1769 100644
--- a/postProcessing.py
+++ b/postProcessing.py
@@ -539,7 +539,7 @@ def save_hole_probability_lattice(data_computation,nb_subplots):
 
     nb_plot = int(mp.floor(mp.sqrt(nb_subplots))**2)
     nb_row = int(mp.sqrt(nb_plot))
-    fig, ax = plt.subplots(nb_row,nb_row)
+    fig, ax = plt.subplots(nb_row, nb_row, squeeze=False)
 
     # Configuration
     configuration = data_computation.data.configuration
@@ -756,7 +756,7 @@ def plot_determinants_amplitude_repartition(data_computation, nb_subplots):
     
     nb_plot = int(mp.floor(mp.sqrt(nb_subplots))**2)
     nb_row = int(mp.sqrt(nb_plot))
-    fig, ax = plt.subplots(nb_row, nb_row)
+    fig, ax = plt.subplots(nb_row, nb_row, squeeze=False)
 
     # Configuration
     configuration = data_computation.data.configuration
-- 
2.43.0


From 343a8d0f8fc1896e125c998351b932c4b80df084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:56 +0000
Subject: [PATCH 25/29] fix: density maps are drawn with the top row of the
 lattice at the top

---
 postProcessing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postProcessing.py b/postProcessing.py
index 22f1769..275b363 100644
--- a/postProcessing.py
+++ b/postProcessing.py
@@ -565,7 +565,7 @@ def save_hole_probability_lattice(data_computation,nb_subplots):
     # Interpolation of the probability density function
         x = list(range(nblocs_side * nbh))
         y = list(range(nblocs_side * nbv))
-        z = proba.tolist()
+        z = proba.tolist()[::-1] # The first row of proba is the top one
 
         f = interp.interp2d(x, y, z)
 
@@ -661,8 +661,8 @@ def save_electron_probability_lattice(data_computation, nb_state):
         x = list(range(nblocs_side*nbh))
         y = list(range(nblocs_side*nbv))
         
-        z_alpha = proba_alpha.tolist()
-        z_beta = proba_beta.tolist()
+        z_alpha = proba_alpha.tolist()[::-1] # The first row is the top one
+        z_beta = proba_beta.tolist()[::-1]
         z_charge = []
         for ind_row in range(len(z_alpha)):
             row = []
-- 
2.43.0


From d3336dc3a60e5aeb3213901b9390448648586dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:47 +0000
Subject: [PATCH 26/29] fix: dynamic embedding counts the particles of the
 neighboring block, not of the block

---
 embedding.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/embedding.py b/embedding.py
index 8ca7792..d0873a9 100644
--- a/embedding.py
+++ b/embedding.py
@@ -524,8 +524,8 @@ def embedding_blocks(data, self_consistency_tol, max_iter, dynamic_embedding=Fal
                         )
                         configuration_temp_B = bC.Configuration(
                             bond_matrix_block,
-                            nholes_block - (delta_nalpha + delta_nbeta == -1) + (delta_nalpha + delta_nbeta == 1),
-                            nbeta_block - delta_nbeta,
+                            nholes_neighbor - (delta_nalpha + delta_nbeta == -1) + (delta_nalpha + delta_nbeta == 1),
+                            nbeta_neighbor - delta_nbeta,
                             configuration_block.sites_restriction,
                             "periodic",
                             nbh, nbv, nblocs_side
@@ -557,9 +557,9 @@ def embedding_blocks(data, self_consistency_tol, max_iter, dynamic_embedding=Fal
 
                                 configuration_perturbed_B = copy.deepcopy(configuration_neighbor)
                                 setattr(configuration_perturbed_B, spins_attributes[spin], \
-                                    getattr(configuration_block, spins_attributes[spin]) + 1)
+                                    getattr(configuration_neighbor, spins_attributes[spin]) + 1)
                                 setattr(configuration_perturbed_B, spins_attributes[new_spin], \
-                                    getattr(configuration_block, spins_attributes[new_spin]) - 1)
+                                    getattr(configuration_neighbor, spins_attributes[new_spin]) - 1)
 
                                 configuration_perturbed_B = bC.Configuration(
                                     bond_matrix=configuration_perturbed_B.bond_matrix, nholes=configuration_perturbed_B.nholes, nbeta=configuration_perturbed_B.nbeta, 
-- 
2.43.0


From 26ca06c34cbda6f9b23f7ca6346b3387888a2daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:47 +0000
Subject: [PATCH 27/29] fix: dynamic embedding weighs the states of a
 neighboring block with reversed spins by their own coefficients

---
 embedding.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/embedding.py b/embedding.py
index d0873a9..3db6777 100644
--- a/embedding.py
+++ b/embedding.py
@@ -660,10 +660,10 @@ def embedding_blocks(data, self_consistency_tol, max_iter, dynamic_embedding=Fal
                                                         coupling_1 = coupled_dets[new_det_1]
                                                         coupling_2 = coupled_dets[new_det_2]
 
-                                                        ind_new_det_B_1 = bC.get_index_in_basis(
-                                                            configuration_block, [site - nsites_block for site in new_det_1 if site >= nsites_block])
-                                                        ind_new_det_B_2 = bC.get_index_in_basis(
-                                                            configuration_block, [site - nsites_block for site in new_det_2 if site >= nsites_block])
+                                                        ind_new_det_B_1 = determinants_neighbor.index(
+                                                            [site - nsites_block for site in new_det_1 if site >= nsites_block])
+                                                        ind_new_det_B_2 = determinants_neighbor.index(
+                                                            [site - nsites_block for site in new_det_2 if site >= nsites_block])
 
                                                         coupling = (np.conj(ground_state_temp[ind_new_det_B_1, 0]) \
                                                             * ground_state_temp[ind_new_det_B_2, 0] \
-- 
2.43.0


From 8c289b00ff7c6b0a3ec3b02edb35d91d2b504a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:03 +0000
Subject: [PATCH 28/29] fix: get_meaningful_corrections returned the search
 space when no correction was meaningful

A slice from -0 is the whole array: with no correction above droptol, the vectors of the search space itself came back as corrections.
---
 davidson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/davidson.py b/davidson.py
index 476fe8a..1754c1a 100644
--- a/davidson.py
+++ b/davidson.py
@@ -150,7 +150,7 @@ def get_meaningful_corrections(krylov_basis, temp_corrections, droptol, eta, nu,
             block_size_new += 1
             correction = temp_corrections[:, [corr]]/lin.norm(temp_corrections[:, corr])
             corrections = np.append(corrections, correction.tolist(), axis=1)
-    return corrections[:,-block_size_new:]
+    return corrections[:, corrections.shape[1] - block_size_new:]
 
 
 def modified_davidson_algorithm_opt(A, nb_val, init_block_size, stp=100, tol=1e-3, droptol=1e-6, eta=0.1, dim_max=0):
-- 
2.43.0


From 36ed09dbfd97ab2e1a62f72b45c59a241673e499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:45 +0000
Subject: [PATCH 29/29] fix: compute_spin_and_multiplicity always raised

It handed the basis where the configuration is expected, and named the
multiplicity from the expectation value instead of the spin number.
---
 davidson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/davidson.py b/davidson.py
index 1754c1a..a6378dc 100644
--- a/davidson.py
+++ b/davidson.py
@@ -354,7 +354,7 @@ def compute_spin_and_multiplicity(basis, eigvects): # Not complete
     multiplicity = []
 
     for ind in range(nb_val):
-        spin = itr.compute_S2_exp_val(basis, eigvects[:,[ind]])
+        spin = itr.compute_spin_number(basis.configuration, eigvects[:,[ind]])
         spins.append(spin)
         multiplicity.append(itr.compute_spin_multiplicity(spin))
     return (spins,multiplicity)
-- 
2.43.0

