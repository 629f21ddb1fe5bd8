From 29c6117f74550125a262cab120b49affd4ecd8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:16 +0000
Subject: [PATCH 01/11] fix: tri_plot passes each plotting function only the
 arguments it takes

tricontourf has no "shading" keyword and tripcolor takes no positional
levels, so every contour plot (and the default solids_GUI run) raised.
---
 solidspy/postprocesor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 700a692..2ab9cb6 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -101,10 +101,11 @@ def tri_plot(tri, field, title="", levels=12, savefigs=False,
         Filename to save the figures.
     """
     if plt_type == "pcolor":
-        disp_plot = plt.tripcolor
+        plt.tripcolor(tri, field, shading="gouraud")
     elif plt_type == "contourf":
-        disp_plot = plt.tricontourf
-    disp_plot(tri, field, levels, shading="gouraud")
+        plt.tricontourf(tri, field, levels)
+    else:
+        raise ValueError("plt_type should be 'pcolor' or 'contourf'.")
     plt.title(title)
     plt.colorbar(orientation='vertical')
     plt.axis("image")
-- 
2.43.0


From d1db03fb70dc381d71bc7c2c83554be3001b6d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:16 +0000
Subject: [PATCH 02/11] fix: plots go to windows of their own and replace what
 they showed

Untitled windows were numbered by the count of open figures, so after a
figure had been closed a plot landed in a window the user still had open;
named windows kept the previous mesh and colorbar below the new plot. A
field with a single column failed.
---
 solidspy/postprocesor.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 2ab9cb6..5dea1e7 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -155,17 +155,16 @@ def plot_node_field(field, nodes, elements, plt_type="contourf", levels=12,
     if title is None:
         title = ["" for cont in range(nfields)]
     if figtitle is None:
-        figs = plt.get_fignums()
-        nfigs = len(figs)
+        nfigs = max(plt.get_fignums(), default=0)
         figtitle = [cont + 1 for cont in range(nfigs, nfigs + nfields)]
     if filename is None:
         filename = ["output{}.pdf".format(cont) for cont in range(nfields)]
     for cont in range(nfields):
-        if nfields == 1:
+        if len(field.shape) == 1:
             current_field = field
         else:
             current_field = field[:, cont]
-        plt.figure(figtitle[cont])
+        plt.figure(figtitle[cont], clear=True)
         tri_plot(tri, current_field, title=title[cont], levels=levels,
                  plt_type=plt_type, savefigs=savefigs,
                  filename=filename[cont])
@@ -222,7 +221,7 @@ def plot_truss(nodes, elements, mats, stresses=None, max_val=4,
             + min_val
     else:
         widths = 3*np.ones_like(areas)
-    plt.figure(figtitle)
+    plt.figure(figtitle, clear=True)
     for elem in elements:
         ini, end = elem[3:]
         color = plt.cm.seismic(scaled_stress[elem[0]])
-- 
2.43.0


From ab033273ec56a3b0c6f704b86936edac1cd3b797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:16 +0000
Subject: [PATCH 03/11] fix: equilibrium check relative to the applied loads

Both sides were divided by the largest stiffness and compared with an
absolute tolerance of 1e-8, so for stiff materials (steel in Pa) any
solution at all, zero included, counted as balanced.
---
 solidspy/solids_GUI.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/solidspy/solids_GUI.py b/solidspy/solids_GUI.py
index 22afda1..22a4247 100755
--- a/solidspy/solids_GUI.py
+++ b/solidspy/solids_GUI.py
@@ -67,8 +67,8 @@ def solids_GUI(plot_contours=True, compute_strains=False, folder=None):
 
     # System solution
     disp = sol.static_sol(stiff_mat, rhs_vec)
-    if not np.allclose(stiff_mat.dot(disp)/stiff_mat.max(),
-                       rhs_vec/stiff_mat.max()):
+    residual = np.abs(stiff_mat.dot(disp) - rhs_vec)
+    if not residual.max() <= 1e-5*np.abs(rhs_vec).max():
         print("The system is not in equilibrium!")
     end_time = datetime.now()
     print('Duration for system solution: {}'.format(end_time - start_time))
@@ -140,8 +140,8 @@ def solids_auto(data, plot_contours=True, compute_strains=False):
     # System solution
     start_time = datetime.now()
     disp = sol.static_sol(stiff_mat, rhs_vec)
-    if not np.allclose(stiff_mat.dot(disp)/stiff_mat.max(),
-                       rhs_vec/stiff_mat.max()):
+    residual = np.abs(stiff_mat.dot(disp) - rhs_vec)
+    if not residual.max() <= 1e-5*np.abs(rhs_vec).max():
         print("The system is not in equilibrium!")
     end_time = datetime.now()
     print('Duration for system solution: {}'.format(end_time - start_time))
-- 
2.43.0


From 72292d7711b99a01771dbd71acef2faad96a8cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:16 +0000
Subject: [PATCH 04/11] fix: accept a folder with or without trailing separator

readin and echomod concatenated folder and file name, so a folder typed
without a final slash was not found (or a sibling file was).
---
 solidspy/preprocesor.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/solidspy/preprocesor.py b/solidspy/preprocesor.py
index dd26468..64ad19c 100755
--- a/solidspy/preprocesor.py
+++ b/solidspy/preprocesor.py
@@ -7,26 +7,32 @@ This module contains functions to preprocess the input files to compute
 a Finite Element Analysis.
 
 """
+import os
 import sys
 import numpy as np
 
 
 def readin(folder=""):
     """Read the input files"""
-    nodes = np.loadtxt(folder + 'nodes.txt', ndmin=2)
-    mats = np.loadtxt(folder + 'mater.txt', ndmin=2)
-    elements = np.loadtxt(folder + 'eles.txt', ndmin=2, dtype=int)
-    loads = np.loadtxt(folder + 'loads.txt', ndmin=2)
+    nodes = np.loadtxt(os.path.join(folder, 'nodes.txt'), ndmin=2)
+    mats = np.loadtxt(os.path.join(folder, 'mater.txt'), ndmin=2)
+    elements = np.loadtxt(os.path.join(folder, 'eles.txt'), ndmin=2,
+                          dtype=int)
+    loads = np.loadtxt(os.path.join(folder, 'loads.txt'), ndmin=2)
 
     return nodes, mats, elements, loads
 
 
 def echomod(nodes, mats, elements, loads, folder=""):
     """Create echoes of the model input files"""
-    np.savetxt(folder + "KNODES.txt", nodes, fmt='%5.2f', delimiter=' ')
-    np.savetxt(folder + "KMATES.txt", mats, fmt='%5.2f', delimiter=' ')
-    np.savetxt(folder + "KELEMS.txt", elements, fmt='%d', delimiter=' ')
-    np.savetxt(folder + "KLOADS.txt", loads, fmt='%5.2f', delimiter=' ')
+    np.savetxt(os.path.join(folder, "KNODES.txt"), nodes,
+               fmt='%5.2f', delimiter=' ')
+    np.savetxt(os.path.join(folder, "KMATES.txt"), mats,
+               fmt='%5.2f', delimiter=' ')
+    np.savetxt(os.path.join(folder, "KELEMS.txt"), elements,
+               fmt='%d', delimiter=' ')
+    np.savetxt(os.path.join(folder, "KLOADS.txt"), loads,
+               fmt='%5.2f', delimiter=' ')
 
 
 def initial_params():
-- 
2.43.0


From bc9c18e53329fdc51e5d41899e929bcaf27f59c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:16 +0000
Subject: [PATCH 05/11] fix: an interrupt in the folder dialog ends the call

The bare except turned KeyboardInterrupt and SystemExit into a prompt.
---
 solidspy/preprocesor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/preprocesor.py b/solidspy/preprocesor.py
index 64ad19c..c399786 100755
--- a/solidspy/preprocesor.py
+++ b/solidspy/preprocesor.py
@@ -58,7 +58,7 @@ def initial_params():
     try:
         import easygui
         folder = easygui.diropenbox(title="Folder for the job") + "/"
-    except:
+    except Exception:
         folder = raw_input('Enter folder (empty for the current one): ')
 
     return folder
-- 
2.43.0


From 0376a6aad476377cfccb9e048a8ad01e2a2b7e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:16 +0000
Subject: [PATCH 06/11] fix: only a failed lookup means an invalid element type

The bare excepts reported an interrupt during the lookup as a ValueError.
---
 solidspy/assemutil.py | 2 +-
 solidspy/femutil.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/solidspy/assemutil.py b/solidspy/assemutil.py
index 9249e74..47bd82e 100755
--- a/solidspy/assemutil.py
+++ b/solidspy/assemutil.py
@@ -112,7 +112,7 @@ def ele_fun(eletype):
         8: ue.beam2D}
     try:
         return elem_id[eletype]
-    except:
+    except (KeyError, TypeError):
         raise ValueError("You entered an invalid type of element.")
 
 
diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index d13dd1b..c677031 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -63,7 +63,7 @@ def eletype(eletype):
         8: (6, 2, 3)}
     try:
         return elem_id[eletype]
-    except:
+    except (KeyError, TypeError):
         raise ValueError("You entered an invalid type of element.")
 
 
-- 
2.43.0


From d97f8316fa256b74c4e4dcb0730de61d6f79d0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:16 +0000
Subject: [PATCH 07/11] fix: spring returns the (4, 4) zero mass matrix it
 documents

Assembling any spring raised IndexError.
---
 solidspy/uelutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/uelutil.py b/solidspy/uelutil.py
index 173ef58..ea1ec58 100755
--- a/solidspy/uelutil.py
+++ b/solidspy/uelutil.py
@@ -442,7 +442,7 @@ def spring(coord, stiff):
         [1, -1],
         [-1, 1]])
     stiff_mat = Q.T @ stiff_mat @ Q
-    return stiff_mat, np.zeros(4)
+    return stiff_mat, np.zeros((4, 4))
 
 
 def truss2D(coord, params):
-- 
2.43.0


From a64ba3ecb7b02ff1e5690e3802973e4dc5a257cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:16 +0000
Subject: [PATCH 08/11] fix: str_el3 gives the strain at all three points

With the one-point rule the other two rows stayed zero, so strain_nodes
averaged zeros into the strains of 3-noded triangles.
---
 solidspy/femutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index c677031..e6f2df4 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -701,7 +701,7 @@ def str_el3(coord, ul):
     """
     epsG = np.zeros([3, 3])
     xl = np.zeros([3, 2])
-    gpts, _ = gau.gauss_tri(order=1)
+    gpts, _ = gau.gauss_tri(order=2)
     for i in range(gpts.shape[0]):
         ri, si =  gpts[i, :]
         H, B, _ = elast_diff_2d(ri, si, coord, shape_tri3)
-- 
2.43.0


From 6167396122e8668185c70afb921adb9f0a0e210e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:16 +0000
Subject: [PATCH 09/11] fix: loads given for the same node add up

loadasem kept only the last row of a node loaded more than once.
---
 solidspy/assemutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/assemutil.py b/solidspy/assemutil.py
index 47bd82e..7dd9367 100755
--- a/solidspy/assemutil.py
+++ b/solidspy/assemutil.py
@@ -321,7 +321,7 @@ def loadasem(loads, bc_array, neq, ndof_node=2):
         for dof in range(ndof_node):
             dof_id = bc_array[node, dof]
             if dof_id != -1:
-                rhs_vec[dof_id] = loads[cont, dof + 1]
+                rhs_vec[dof_id] += loads[cont, dof + 1]
     return rhs_vec
 
 
-- 
2.43.0


From 09808923ffbdc44f82950f7b0e3c583a7d3480a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:16 +0000
Subject: [PATCH 10/11] fix: eigvals of a zero tensor with NumPy 2

np.NaN no longer exists there.
---
 solidspy/postprocesor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 5dea1e7..9eb5283 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -596,8 +596,8 @@ def eigvals(mat, tol=1e-6):
     if np.abs(mat).max() < tol:
         eig1 = 0.0
         eig2 = 0.0
-        vec1 = np.array([np.NaN, np.NaN])
-        vec2 = np.array([np.NaN, np.NaN])
+        vec1 = np.array([np.nan, np.nan])
+        vec2 = np.array([np.nan, np.nan])
     elif abs(mat[0, 1])/np.abs(mat).max() < tol:
         eig1 = mat[0, 0]
         eig2 = mat[1, 1]
-- 
2.43.0


From ca46ff210b9a9e4ffa53a59821f9549d9ecf2ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:48 +0000
Subject: [PATCH 11/11] fix: read input files with non-ASCII comments under
 every locale

---
 solidspy/preprocesor.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/solidspy/preprocesor.py b/solidspy/preprocesor.py
index c399786..df297c2 100755
--- a/solidspy/preprocesor.py
+++ b/solidspy/preprocesor.py
@@ -14,11 +14,15 @@ import numpy as np
 
 def readin(folder=""):
     """Read the input files"""
-    nodes = np.loadtxt(os.path.join(folder, 'nodes.txt'), ndmin=2)
-    mats = np.loadtxt(os.path.join(folder, 'mater.txt'), ndmin=2)
+    # Comments might have any encoding; Latin-1 decodes every byte
+    nodes = np.loadtxt(os.path.join(folder, 'nodes.txt'), ndmin=2,
+                       encoding='latin1')
+    mats = np.loadtxt(os.path.join(folder, 'mater.txt'), ndmin=2,
+                      encoding='latin1')
     elements = np.loadtxt(os.path.join(folder, 'eles.txt'), ndmin=2,
-                          dtype=int)
-    loads = np.loadtxt(os.path.join(folder, 'loads.txt'), ndmin=2)
+                          dtype=int, encoding='latin1')
+    loads = np.loadtxt(os.path.join(folder, 'loads.txt'), ndmin=2,
+                       encoding='latin1')
 
     return nodes, mats, elements, loads
 
-- 
2.43.0

