From 163ee66eaa40e61a048f09bbf40780a8c53d1af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:20 +0000
Subject: [PATCH 01/16] fix: do not use the removed alias np.int in
 allgather_dict

---
 impurityModel/ed/mpi_comm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impurityModel/ed/mpi_comm.py b/impurityModel/ed/mpi_comm.py
index a7f88fd..e2754ea 100644
--- a/impurityModel/ed/mpi_comm.py
+++ b/impurityModel/ed/mpi_comm.py
@@ -70,7 +70,7 @@ def allgather_dict(data, total, chunk_maxsize=1 * 10**6):
     # Measure time for constructing H in matrix form
     t0 = time.time()
     # Number of elements for each rank.
-    n_ps_new = np.zeros(ranks, dtype=np.int)
+    n_ps_new = np.zeros(ranks, dtype=int)
     for r in range(ranks):
         n_ps_new[r] = comm.bcast(len(data), root=r)
     # Determine here if we can use a simple Allgather or need
-- 
2.43.0


From c204dbdaa49846564834f59c13ec1c6daf5ba872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:20 +0000
Subject: [PATCH 02/16] fix: use separate look-up dictionaries for the
 out-going RIXS operators

All out-going transition operators shared one dictionary, so the result of the
first operator acting on a product state was reused for all the other operators.
---
 impurityModel/ed/spectra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/impurityModel/ed/spectra.py b/impurityModel/ed/spectra.py
index 87f163f..f20121f 100644
--- a/impurityModel/ed/spectra.py
+++ b/impurityModel/ed/spectra.py
@@ -907,7 +907,8 @@ def getRIXSmap(
     # Hamiltonian dict of the form  |PS> : {H|PS>}
     # For product states with a core hole.
     h_dict_excited = {}
-    tOut_big = [{}] * len(tOpsOut)
+    # One look-up dictionary per out-going transition operator.
+    tOut_big = [{} for _ in tOpsOut]
     if parallelization_mode in ("serial", "H_build"):
         # Loop over in-coming transition operators
         for tIn, tOpIn in enumerate(tOpsIn):
-- 
2.43.0


From dd901dc30587526e1a50be290b7018ebf5c4af1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:20 +0000
Subject: [PATCH 03/16] fix: angles of the NIXS momentum transfer for all
 directions

The sign of q_y was lost, and q parallel to the z-axis (and, due to rounding,
some q in the xz-plane) gave NaN.
---
 impurityModel/ed/spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impurityModel/ed/spectra.py b/impurityModel/ed/spectra.py
index f20121f..a78679d 100644
--- a/impurityModel/ed/spectra.py
+++ b/impurityModel/ed/spectra.py
@@ -479,9 +479,9 @@ def getNIXSOperator(nBaths, q, li, lj, Ri, Rj, r, kmin=1):
     q = np.array(q)
     qNorm = np.linalg.norm(q)
     # Polar (colatitudinal) coordinate
-    theta = np.arccos(q[2] / qNorm)
+    theta = np.arctan2(np.hypot(q[0], q[1]), q[2])
     # Azimuthal (longitudinal) coordinate
-    phi = np.arccos(q[0] / (qNorm * np.sin(theta)))
+    phi = np.arctan2(q[1], q[0])
     tOp = {}
     for k in range(kmin, abs(li + lj) + 1):
         if (li + lj + k) % 2 == 0:
-- 
2.43.0


From b601146c4a1a770f76507e417fe58fa100fc4c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:20 +0000
Subject: [PATCH 04/16] fix: Green's function when the Krylov space is
 exhausted

When an exact zero in beta was found, ValueError was raised (on MPI rank 0
only, leaving the other ranks waiting), although the continued fraction
then just terminates.
---
 impurityModel/ed/finite.py  | 12 ++++++------
 impurityModel/ed/spectra.py |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index 1747d70..351d81b 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -1958,9 +1958,9 @@ def get_tridiagonal_krylov_vectors(h, psi0, krylovSize, h_local=False, mode="spa
                 if beta[j - 1] != 0:
                     v[1, :] = w / beta[j - 1]
                 else:
-                    # Pick normalized state v[j],
-                    # orthogonal to v[0],v[1],v[2],...,v[j-1]
-                    raise ValueError(("Warning: beta==0, " + "implementation absent!"))
+                    # The Krylov space is exhausted.
+                    # Remaining elements in alpha and beta become zero.
+                    v[1, :] = 0
             # Broadcast vector v[1,:] from rank 0 to all ranks.
             comm.Bcast(v[1, :], root=0)
             wp_local = h.dot(v[1, :])
@@ -1983,9 +1983,9 @@ def get_tridiagonal_krylov_vectors(h, psi0, krylovSize, h_local=False, mode="spa
             if beta[j - 1] != 0:
                 v[1, :] = w / beta[j - 1]
             else:
-                # Pick normalized state v[j],
-                # orthogonal to v[0],v[1],v[2],...,v[j-1]
-                raise ValueError("Warning: beta==0, implementation absent!")
+                # The Krylov space is exhausted.
+                # Remaining elements in alpha and beta become zero.
+                v[1, :] = 0
             wp = h.dot(v[1, :])
             alpha[j] = np.dot(np.conj(wp), v[1, :]).real
             w = wp - alpha[j] * v[1, :] - beta[j - 1] * v[0, :]
diff --git a/impurityModel/ed/spectra.py b/impurityModel/ed/spectra.py
index a78679d..0f276a9 100644
--- a/impurityModel/ed/spectra.py
+++ b/impurityModel/ed/spectra.py
@@ -636,9 +636,9 @@ def getGreen(
             if beta[j - 1] != 0:
                 v[j] = {s: 1.0 / beta[j - 1] * a for s, a in w[j - 1].items()}
             else:
-                # Pick normalized state v[j],
-                # orthogonal to v[0],v[1],v[2],...,v[j-1]
-                print("Warning: beta==0, implementation missing!")
+                # The Krylov space is exhausted.
+                # Remaining elements in alpha and beta become zero.
+                v[j] = {}
             # print('len(v[',j,'] =',len(v[j]))
             wp[j] = applyOp(n_spin_orbitals, hOp, v[j], slaterWeightMin, restrictions, h_dict)
             alpha[j] = inner(wp[j], v[j]).real
-- 
2.43.0


From 6be84c8a47a775afd5316c6a92580fdcb7db9025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:20 +0000
Subject: [PATCH 05/16] fix: do not let more electrons leave the valence bath
 than it contains

Without valence bath states, electrons were added to the impurity without
being removed from anywhere, mixing different numbers of electrons in the basis.
---
 impurityModel/ed/finite.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index 351d81b..bd9d69a 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -318,7 +318,8 @@ def get_basis(nBaths, valBaths, dnValBaths, dnConBaths, dnTol, n0imp):
         # Add configurations to this list
         basisL[l] = []
         # Loop over different occupation partitions
-        for dnVal in range(dnValBaths[l] + 1):
+        # (no more electrons than present can leave the valence bath)
+        for dnVal in range(min(dnValBaths[l], valBaths[l]) + 1):
             for dnCon in range(dnConBaths[l] + 1):
                 deltaNimp = dnVal - dnCon
                 if abs(deltaNimp) <= dnTol[l]:
-- 
2.43.0


From f0cc68ba96f29664e1016aadd71358035cffa5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:20 +0000
Subject: [PATCH 06/16] fix: print the thermal expectation values at the
 requested temperature

---
 impurityModel/ed/get_spectra.py          | 2 +-
 impurityModel/ed/get_spectra_using_CF.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/impurityModel/ed/get_spectra.py b/impurityModel/ed/get_spectra.py
index ba538fc..9569151 100644
--- a/impurityModel/ed/get_spectra.py
+++ b/impurityModel/ed/get_spectra.py
@@ -206,7 +206,7 @@ def main(
         t0 = time.time()
 
     # Calculate static expectation values
-    finite.printThermalExpValues(nBaths, es, psis)
+    finite.printThermalExpValues(nBaths, es, psis, T)
     finite.printExpValues(nBaths, es, psis)
 
     # Print Slater determinants and weights
diff --git a/impurityModel/ed/get_spectra_using_CF.py b/impurityModel/ed/get_spectra_using_CF.py
index df7fda7..9628c6d 100644
--- a/impurityModel/ed/get_spectra_using_CF.py
+++ b/impurityModel/ed/get_spectra_using_CF.py
@@ -206,7 +206,7 @@ def main(
         t0 = time.time()
 
     # Calculate static expectation values
-    finite.printThermalExpValues(nBaths, es, psis)
+    finite.printThermalExpValues(nBaths, es, psis, T)
     finite.printExpValues(nBaths, es, psis)
 
     # Print Slater determinants and weights
-- 
2.43.0


From 86e2e1c4eb57fbbae22e4bd4d89b8a58a8cf597b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:20 +0000
Subject: [PATCH 07/16] fix: use the default filename in plotSpectra when none
 is given

---
 impurityModel/plotScripts/plotSpectra.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/impurityModel/plotScripts/plotSpectra.py b/impurityModel/plotScripts/plotSpectra.py
index 2163d19..5096447 100644
--- a/impurityModel/plotScripts/plotSpectra.py
+++ b/impurityModel/plotScripts/plotSpectra.py
@@ -221,6 +221,7 @@ if __name__ == "__main__":
     parser.add_argument(
         "filename",
         type=str,
+        nargs="?",
         default="spectra.h5",
         help="Filename containing spectra.",
     )
-- 
2.43.0


From de2c14bc10c3a2ae7cbb95eac2caba7100b18a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:20 +0000
Subject: [PATCH 08/16] fix: make the crystal-field Hamiltonian exactly
 Hermitian

Rounding errors in the rotation to spherical harmonics made assert_hermitian
fail for about half of all choices of crystal-field parameters.
---
 impurityModel/ed/get_spectra_using_CF.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/impurityModel/ed/get_spectra_using_CF.py b/impurityModel/ed/get_spectra_using_CF.py
index 9628c6d..e771106 100644
--- a/impurityModel/ed/get_spectra_using_CF.py
+++ b/impurityModel/ed/get_spectra_using_CF.py
@@ -482,6 +482,8 @@ def get_CF_hamiltonian(nBaths, nValBaths, h0_CF_filename, bath_state_basis="sphe
     # Convert to spherical harmonics basis
     u = finite.get_spherical_2_cubic_matrix(spinpol=False, l=l)
     h_imp_3d = np.dot(u, np.dot(h_imp_3d, np.conj(u.T)))
+    # Remove rounding errors that break the Hermiticity
+    h_imp_3d = (h_imp_3d + np.conj(h_imp_3d.T)) / 2
     # Convert from matrix to operator form.
     # Also add spin.
     h_imp_3d_operator = {}
@@ -520,6 +522,9 @@ def get_CF_hamiltonian(nBaths, nValBaths, h0_CF_filename, bath_state_basis="sphe
     vCon3d = np.dot(u_bath, np.dot(vCon3d, np.conj(u.T)))
     eBathVal3d = np.dot(u_bath, np.dot(eBathVal3d, np.conj(u_bath.T)))
     eBathCon3d = np.dot(u_bath, np.dot(eBathCon3d, np.conj(u_bath.T)))
+    # Remove rounding errors that break the Hermiticity
+    eBathVal3d = (eBathVal3d + np.conj(eBathVal3d.T)) / 2
+    eBathCon3d = (eBathCon3d + np.conj(eBathCon3d.T)) / 2
     # Convert from matrix to operator form.
     # Also introduce spin.
     h_hopp_operator = {}
-- 
2.43.0


From ee59203ca304127b653d3dd55a3d3b9786844bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:48 +0000
Subject: [PATCH 09/16] fix: full diagonalization when Lanczos can not find the
 requested number of states

For a small basis (e.g. d0 or d10 configurations) scipy's eigsh raises
TypeError when k >= N. Use full diagonalization in that case.
---
 impurityModel/ed/finite.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index bd9d69a..0fee0b5 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -97,7 +97,8 @@ def eigensystem(
         print("<#Hamiltonian elements/column> = {:d}".format(int(len(np.nonzero(h)[0]) / len(basis))))
     if rank == 0:
         print("Diagonalize the Hamiltonian...")
-    if groundDiagMode == "full":
+    # Lanczos can not find (almost) all eigenstates, as needed for a small basis.
+    if groundDiagMode == "full" or (groundDiagMode == "Lanczos" and nPsiMax >= len(basis) - 1):
         es, vecs = np.linalg.eigh(h.todense())
         es = es[:nPsiMax]
         vecs = vecs[:, :nPsiMax]
-- 
2.43.0


From 7d0680ac5fcb740a0794304ae2e39dd9f3119e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:45 +0000
Subject: [PATCH 10/16] fix: orthogonalize the eigenstates of degenerate
 energies found by Lanczos

---
 impurityModel/ed/finite.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index 0fee0b5..41cdfef 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -108,6 +108,8 @@ def eigensystem(
         indices = np.argsort(es)
         es = np.array([es[i] for i in indices])
         vecs = np.array([vecs[:, i] for i in indices]).T
+        # The eigenvectors belonging to a degenerate eigenvalue might not be orthogonal to each other.
+        vecs, _ = np.linalg.qr(vecs)
     else:
         print("Wrong diagonalization mode")
     if rank == 0:
-- 
2.43.0


From 0e6e3f367eafafcd75bf05764d2d1a20e7fc0d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:33 +0000
Subject: [PATCH 11/16] fix: plot RIXS maps for any number of polarization
 vectors

---
 impurityModel/plotScripts/plotSpectra.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/impurityModel/plotScripts/plotSpectra.py b/impurityModel/plotScripts/plotSpectra.py
index 5096447..d008046 100644
--- a/impurityModel/plotScripts/plotSpectra.py
+++ b/impurityModel/plotScripts/plotSpectra.py
@@ -192,7 +192,9 @@ def plot_spectra_in_file(filename):
 
         # All polarization combinations In:x,y,z , Out:x,y,z
         if rixs.shape[:2] != (1, 1):
-            fig, axes = plt.subplots(nrows=np.shape(rixs)[0], ncols=np.shape(rixs)[1], sharex=True, sharey=True)
+            fig, axes = plt.subplots(
+                nrows=np.shape(rixs)[0], ncols=np.shape(rixs)[1], sharex=True, sharey=True, squeeze=False
+            )
             for i in range(np.shape(axes)[0]):
                 for j in range(np.shape(axes)[1]):
                     tmp = np.copy(rixs[i, j, :, :].T)
@@ -206,7 +208,7 @@ def plot_spectra_in_file(filename):
                     if j == np.shape(axes)[1] - 1:
                         cbar.ax.set_ylabel("RIXS intensity")
                     axes[i, j].set_title(f"({i},{j})")
-            for ax in axes[2, :]:
+            for ax in axes[-1, :]:
                 ax.set_xlabel(r"$\omega_{in}$   (eV)")
             for ax in axes[:, 0]:
                 ax.set_ylabel(r"$\omega_{loss}$   (eV)")
-- 
2.43.0


From 8f0b489374ea5cd502d53c457f73cbab6895b0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:16 +0000
Subject: [PATCH 12/16] fix: plot RIXS maps without any intensity above the
 cut-off

---
 impurityModel/plotScripts/plotRIXS.py    | 4 +++-
 impurityModel/plotScripts/plotSpectra.py | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/impurityModel/plotScripts/plotRIXS.py b/impurityModel/plotScripts/plotRIXS.py
index cf3cfcc..79be266 100644
--- a/impurityModel/plotScripts/plotRIXS.py
+++ b/impurityModel/plotScripts/plotRIXS.py
@@ -43,7 +43,9 @@ def main():
     top = wLoss[-1] + dy / 2
 
     plt.figure()
-    cs = plt.imshow(tmp, origin="lower", extent=(left, right, bottom, top), aspect="auto", norm="log")
+    # Log-scale requires at least one value above the cut-off
+    norm = "linear" if np.all(mask) else "log"
+    cs = plt.imshow(tmp, origin="lower", extent=(left, right, bottom, top), aspect="auto", norm=norm)
     cbar = plt.colorbar(cs)
     cbar.ax.set_ylabel("RIXS intensity")
     plt.xlabel(r"$\omega_{in}$   (eV)")
diff --git a/impurityModel/plotScripts/plotSpectra.py b/impurityModel/plotScripts/plotSpectra.py
index d008046..00261e6 100644
--- a/impurityModel/plotScripts/plotSpectra.py
+++ b/impurityModel/plotScripts/plotSpectra.py
@@ -182,7 +182,9 @@ def plot_spectra_in_file(filename):
         top = wLoss[-1] + dy / 2
 
         plt.figure()
-        cs = plt.imshow(tmp, origin="lower", extent=(left, right, bottom, top), aspect="auto", norm="log")
+        # Log-scale requires at least one value above the cut-off
+        norm = "linear" if np.all(mask) else "log"
+        cs = plt.imshow(tmp, origin="lower", extent=(left, right, bottom, top), aspect="auto", norm=norm)
         cbar = plt.colorbar(cs)
         cbar.ax.set_ylabel("RIXS intensity")
         plt.xlabel(r"$\omega_{in}$   (eV)")
@@ -201,8 +203,9 @@ def plot_spectra_in_file(filename):
                     mask = tmp < plotCutOff
                     tmp[mask] = np.nan
 
+                    norm = "linear" if np.all(mask) else "log"
                     cs = axes[i, j].imshow(
-                        tmp, origin="lower", extent=(left, right, bottom, top), aspect="auto", norm="log"
+                        tmp, origin="lower", extent=(left, right, bottom, top), aspect="auto", norm=norm
                     )
                     cbar = plt.colorbar(cs, ax=axes[i, j])
                     if j == np.shape(axes)[1] - 1:
-- 
2.43.0


From ec2818de254651d5795a504e24308160297a9cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:59 +0000
Subject: [PATCH 13/16] fix: the 50p10 bath script has 50 valence bath states

h0_NiO_50p10bath.pickle has 50 bath states below and 10 above the Fermi
level, but the script told the program that only the first 10 of the 60 bath
states are valence states, so 40 valence states started out empty.
---
 scripts/run_Ni_NiO_50p10bath.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/run_Ni_NiO_50p10bath.sh b/scripts/run_Ni_NiO_50p10bath.sh
index efa56ac..ea0f125 100755
--- a/scripts/run_Ni_NiO_50p10bath.sh
+++ b/scripts/run_Ni_NiO_50p10bath.sh
@@ -22,5 +22,5 @@ echo "Number of MPI ranks to use: $ranks"
 echo "H0 filename: $h0_filename"
 echo "Radial wavefunction filename: $radial_filename"
 
-mpirun -n $ranks python -m impurityModel.ed.get_spectra $h0_filename $radial_filename --nBaths 0 60 --nValBaths 0 10 --dnConBaths 0 1
+mpirun -n $ranks python -m impurityModel.ed.get_spectra $h0_filename $radial_filename --nBaths 0 60 --nValBaths 0 50 --dnConBaths 0 1
 
-- 
2.43.0


From d9ff2504228d2b7e23f612e63dfe7d61a8ceada5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:45 +0000
Subject: [PATCH 14/16] fix: name the indices of the printed density matrix in
 the printed order

The density matrix is printed as (spin, orbital), the label said (orbital, spin).
---
 impurityModel/ed/finite.py               | 2 +-
 impurityModel/ed/get_spectra.py          | 4 ++--
 impurityModel/ed/get_spectra_using_CF.py | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index 41cdfef..94924d5 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -1035,7 +1035,7 @@ def getDensityMatrixCubic(nBaths, psi):
     Returns
     -------
     densityMatrix : dict
-        keys of the form: :math:`((i,si),(j,sj))`.
+        keys of the form: :math:`((si,i),(sj,j))`.
         values of the form: :math:`\langle psi| c_{jc}^\dagger c_{ic}
         |psi \rangle`.
 
diff --git a/impurityModel/ed/get_spectra.py b/impurityModel/ed/get_spectra.py
index 9569151..e439f01 100644
--- a/impurityModel/ed/get_spectra.py
+++ b/impurityModel/ed/get_spectra.py
@@ -240,12 +240,12 @@ def main(
                 if abs(ne) > tolPrintOccupation:
                     if e[0] == e[1]:
                         print(
-                            "Diagonal: (i,s) =",
+                            "Diagonal: (s,i) =",
                             e[0],
                             ", occupation = {:7.2f}".format(ne),
                         )
                     else:
-                        print("Off-diagonal: (i,si), (j,sj) =", e, ", {:7.2f}".format(ne))
+                        print("Off-diagonal: (si,i), (sj,j) =", e, ", {:7.2f}".format(ne))
             print("")
 
     # Save some information to disk
diff --git a/impurityModel/ed/get_spectra_using_CF.py b/impurityModel/ed/get_spectra_using_CF.py
index e771106..771fc6d 100644
--- a/impurityModel/ed/get_spectra_using_CF.py
+++ b/impurityModel/ed/get_spectra_using_CF.py
@@ -240,12 +240,12 @@ def main(
                 if abs(ne) > tolPrintOccupation:
                     if e[0] == e[1]:
                         print(
-                            "Diagonal: (i,s) =",
+                            "Diagonal: (s,i) =",
                             e[0],
                             ", occupation = {:7.2f}".format(ne),
                         )
                     else:
-                        print("Off-diagonal: (i,si), (j,sj) =", e, ", {:7.2f}".format(ne))
+                        print("Off-diagonal: (si,i), (sj,j) =", e, ", {:7.2f}".format(ne))
             print("")
 
     # Save some information to disk
-- 
2.43.0


From a1f860b8b52d13415a398aeb7e618084cd381482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 15/16] fix: refuse negative indices in i2c

i2c(nBaths, -1) returned a label of a bath state with a negative number, e.g. (1, -33), instead of raising.
---
 impurityModel/ed/finite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index 94924d5..322aa02 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -836,7 +836,7 @@ def i2c(nBaths, i):
     for lp, nBath in nBaths.items():
         b = i - k
         # Check if bath state belong to bath states having lp.
-        if b < nBath:
+        if 0 <= b < nBath:
             # The index "b" will have a value between 0 and nBath-1
             return (lp, b)
         k += nBath
-- 
2.43.0


From 69f3a0bf5942a0eaaf38468da7b8037f3820a3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:25 +0000
Subject: [PATCH 16/16] fix: print product states without dropping their
 trailing zero bytes

---
 impurityModel/ed/get_spectra.py          | 2 +-
 impurityModel/ed/get_spectra_using_CF.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/impurityModel/ed/get_spectra.py b/impurityModel/ed/get_spectra.py
index e439f01..46a3d09 100644
--- a/impurityModel/ed/get_spectra.py
+++ b/impurityModel/ed/get_spectra.py
@@ -217,7 +217,7 @@ def main(
             print("Eigenstate {:d}.".format(i))
             print("Consists of {:d} product states.".format(len(psi)))
             ws = np.array([abs(a) ** 2 for a in psi.values()])
-            s = np.array(list(psi.keys()))
+            s = np.array(list(psi.keys()), dtype=object)
             j = np.argsort(ws)
             ws = ws[j[-1::-1]]
             s = s[j[-1::-1]]
diff --git a/impurityModel/ed/get_spectra_using_CF.py b/impurityModel/ed/get_spectra_using_CF.py
index 771fc6d..33b9c65 100644
--- a/impurityModel/ed/get_spectra_using_CF.py
+++ b/impurityModel/ed/get_spectra_using_CF.py
@@ -217,7 +217,7 @@ def main(
             print("Eigenstate {:d}.".format(i))
             print("Consists of {:d} product states.".format(len(psi)))
             ws = np.array([abs(a) ** 2 for a in psi.values()])
-            s = np.array(list(psi.keys()))
+            s = np.array(list(psi.keys()), dtype=object)
             j = np.argsort(ws)
             ws = ws[j[-1::-1]]
             s = s[j[-1::-1]]
-- 
2.43.0

