From 9cd37fef1cdcfe0708b9ca4cf87a6a348aeba75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:34 +0000
Subject: [PATCH 01/39] fix: electron-boson local energy used the first mode's
 Fock block for every mode

---
 openms/qmc/estimators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openms/qmc/estimators.py b/openms/qmc/estimators.py
index 5a58a9f..948edb8 100644
--- a/openms/qmc/estimators.py
+++ b/openms/qmc/estimators.py
@@ -675,6 +675,7 @@ def local_eng_eboson(omega, nboson_states, geb, Gfermions, Gboson):
         a = backend.diag(backend.sqrt(backend.arange(1, mdim)), k=1)
         h_od = a + a.T
         Hb[:, idx:idx+mdim, idx:idx+mdim] += h_od[None, :, :] * zalpha[:, imode][:, None, None]
+        idx += mdim
     eg = backend.einsum("zNM,zNM->z", Hb, Gboson)
     return eg
 
-- 
2.43.0


From 7017f7b03cb545e0a2f6fdf6eeeb75ab18b4dc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:55 +0000
Subject: [PATCH 02/39] fix: numba Coulomb kernel summed L.G instead of its
 square

---
 openms/qmc/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/estimators.py b/openms/qmc/estimators.py
index 948edb8..58a1a74 100644
--- a/openms/qmc/estimators.py
+++ b/openms/qmc/estimators.py
@@ -471,7 +471,7 @@ if NUMBA_AVAILABLE:
                 LG = np.dot(Ghalfa[iw].ravel(), rltensora[l].ravel())
                 if Ghalfb is not None and rltensorb is not None:
                     LG += np.dot(Ghalfb[iw].ravel(), rltensorb[l].ravel())
-                ecoul[iw] += 0.5 * LG
+                ecoul[iw] += 0.5 * LG * LG
 
         return ecoul
 
-- 
2.43.0


From 688e638ade892951bee57676d7f6a1856201dd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:20 +0000
Subject: [PATCH 03/39] fix: force bias above bias_bound was rescaled to
 modulus 1 instead of bias_bound

---
 openms/qmc/propagators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/propagators.py b/openms/qmc/propagators.py
index 01f7e8c..f5fe13c 100644
--- a/openms/qmc/propagators.py
+++ b/openms/qmc/propagators.py
@@ -524,7 +524,7 @@ class Phaseless(PropagatorBase):
 
         # Rescale only non-zero elements
         f_rescaled = fbias.copy()
-        f_rescaled[nonzeros] /= absf[nonzeros]
+        f_rescaled[nonzeros] /= absf[nonzeros] / self.bias_bound
 
         # Apply the rescaling to elements exceeding the max bound
         fbias = backend.where(idx_to_rescale, f_rescaled, fbias)
-- 
2.43.0


From 98c15806df09ba7ee085beb35cdaf97365b5f6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:08 +0000
Subject: [PATCH 04/39] fix: chols_full added the coupling term to the caller's
 integral tensor in place

---
 openms/qmc/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/tools.py b/openms/qmc/tools.py
index 899920f..ea4a430 100644
--- a/openms/qmc/tools.py
+++ b/openms/qmc/tools.py
@@ -408,7 +408,7 @@ def chols_full(mol, eri=None, thresh=1.e-12, aosym="s1", g=None):
         eri = mol.intor('int2e_sph', aosym='s1')
     nao = eri.shape[0]
     if g is not None:
-        eri += numpy.einsum("npq, nrs->pqrs", g, g)
+        eri = eri + numpy.einsum("npq, nrs->pqrs", g, g)
 
     eri = eri.reshape((nao**2, -1))
     u, s, v = scipy.linalg.svd(eri)
-- 
2.43.0


From bf90eb7310757dff1c84c17d19fc7394d1fc0206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:08 +0000
Subject: [PATCH 05/39] fix: blocked Cholesky with more than one coupling
 matrix could not be reshaped

---
 openms/qmc/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/tools.py b/openms/qmc/tools.py
index ea4a430..6d17963 100644
--- a/openms/qmc/tools.py
+++ b/openms/qmc/tools.py
@@ -577,7 +577,7 @@ def _compute_eri_chunk(mol, nao, sj, sl, indices4bas, j, l, delta_max, g=None):
 
     if g is not None:
         # Add the modified term \sum_n g_{n,ij} g_{n,kl} dynamically
-        mod_chunk = numpy.einsum("n,njk->njk", g[:, j, l], g)
+        mod_chunk = numpy.einsum("n,njk->jk", g[:, j, l], g)
         eri_chunk += mod_chunk.reshape(nao * nao)
 
     return eri_chunk / numpy.sqrt(delta_max)
-- 
2.43.0


From 0b8530ad27399e97c8381cd2cc8d36110b8bb1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:08 +0000
Subject: [PATCH 06/39] fix: blocked Cholesky ran past its buffer when the
 maximum number of vectors was reached

---
 openms/qmc/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/tools.py b/openms/qmc/tools.py
index 6d17963..0ff0d56 100644
--- a/openms/qmc/tools.py
+++ b/openms/qmc/tools.py
@@ -468,7 +468,7 @@ def chols_blocked(mol, thresh=1.e-6, max_chol_fac=15,
 
     nao = mol.nao_nr()
     max_chols = max_chol_fac * nao
-    ltensor = numpy.zeros((max_chols, nao * nao))
+    ltensor = numpy.zeros((max_chols + 1, nao * nao))
     diag = numpy.zeros(nao * nao)
 
     # Compute basis indices
-- 
2.43.0


From f1509dcadf8cf132700ae6f6ef3db02e7c876720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:22 +0000
Subject: [PATCH 07/39] fix: combined variational gradient used the wrong shift
 sign for Cholesky integrals

---
 openms/mqed/vtqedhf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/mqed/vtqedhf.py b/openms/mqed/vtqedhf.py
index 90370b6..abc4a17 100644
--- a/openms/mqed/vtqedhf.py
+++ b/openms/mqed/vtqedhf.py
@@ -383,7 +383,7 @@ class RHF(scqedhf.RHF):
                 for p in range(self.nao):
                     Lp = self.ltensor[:, p, :]
                     for q in range(self.nao):
-                        shift = self.eta[a, q] - self.eta[a, p]
+                        shift = self.eta[a, p] - self.eta[a, q]
                         # Ieff is the bottleneck
                         Ieff = 2.0 * numpy.einsum('X, Xrs->rs', self.ltensor[:, p, q], self.ltensor) - \
                                numpy.einsum('Xs, Xr->rs', Lp, self.ltensor[:, :,q])
@@ -397,7 +397,7 @@ class RHF(scqedhf.RHF):
                         tmp = numpy.sum(ID * fc_derivative)
                         twobody_deta[p] += tmp * dm_do[a, p, q]
                         # Q
-                        derivative = self.gaussian_derivative_sq_vector(self.eta, a, shift=shift)
+                        derivative = self.gaussian_derivative_sq_vector(self.eta, a, shift=-shift)
                         tmp = numpy.sum(ID * derivative)
                         twobody_dvsq[a] += tmp * dm_do[a, p, q]/ 4.0
             else:
-- 
2.43.0


From 5baceb3251b3600684cb68592d08282413b13e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:22 +0000
Subject: [PATCH 08/39] fix: squeezing parameters were never updated when the
 coupling fraction is fixed

---
 openms/mqed/vtqedhf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openms/mqed/vtqedhf.py b/openms/mqed/vtqedhf.py
index abc4a17..b94fd67 100644
--- a/openms/mqed/vtqedhf.py
+++ b/openms/mqed/vtqedhf.py
@@ -578,7 +578,8 @@ class RHF(scqedhf.RHF):
             )
             self.qed.update_couplings()
 
-        fsize += varsize
+        if self.qed.optimize_varf:
+            fsize += varsize
         if params.size > fsize and self.qed.optimize_vsq:
             self.qed.squeezed_var = params[fsize :].reshape(
                 self.vsq_grad.shape
@@ -603,7 +604,8 @@ class RHF(scqedhf.RHF):
             )
             self.qed.update_couplings()
 
-        fsize += varsize
+        if self.qed.optimize_varf:
+            fsize += varsize
         if self.qed.optimize_vsq and params.size > fsize:
             self.qed.squeezed_var = params[fsize :].reshape(
                 self.vsq_grad.shape
-- 
2.43.0


From 86cb96703618eabe214a2e545e98c5f713ae3a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:45 +0000
Subject: [PATCH 09/39] fix: Photon no longer normalizes the caller's
 polarization vectors in place

---
 openms/lib/boson.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index 19c10f0..f1d08ad 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -646,6 +646,7 @@ class Boson(object):
         # Normalize vectors first, use normalization constants
         # as the gfac values, if coupling strengths were not provided
         else:
+            vec = vec.copy() # do not normalize the caller's array
             m_cnsts = numpy.zeros(self.nmodes)
             for a in range(self.nmodes):
                 cnst = m_cnsts[a] = numpy.sqrt(numpy.dot(vec[a], vec[a]))
-- 
2.43.0


From 8deeb47ba5658bf4dc07aac93dc2dc7668be024a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:32 +0000
Subject: [PATCH 10/39] fix: Photon.fock added the self-energy into the
 mean-field object's stored core Hamiltonian

---
 openms/lib/boson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index f1d08ad..03071aa 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -2073,7 +2073,7 @@ class Photon(Boson):
 
         # add DSE-oei contribution
         if not self.shift:
-            h1 += self.add_oei_ao(self.pa+self.pb)
+            h1 = h1 + self.add_oei_ao(self.pa+self.pb)
 
 
         ptot = block_diag(self.pa, self.pb)
-- 
2.43.0


From fb23630b46131aa5e7a1a757a10b961705833563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:32 +0000
Subject: [PATCH 11/39] fix: Photon.hf_energy counted only half of the
 self-energy one-electron part

---
 openms/lib/boson.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index 03071aa..920bb8e 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -2093,9 +2093,12 @@ class Photon(Boson):
 
 
     def hf_energy(self):
-        # this only works with bare HF
         F = self.fock()
         T = self.tmat()
+        # the DSE one-electron part of F is counted in full, like the bare one
+        if not self.shift:
+            oei = self.add_oei_ao(self.pa+self.pb)
+            T = T + block_diag(oei, oei)
         ptot = block_diag(self.pa, self.pb)
 
         Ehf = numpy.einsum("ij,ji->", ptot, F)
-- 
2.43.0


From 1fa83d899ff84834ec63ceb421b77c1a2cb3bb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:32 +0000
Subject: [PATCH 12/39] fix: get_integrals4fci scaled the coupling along the
 wrong axis for several modes

---
 openms/lib/boson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index 920bb8e..c7b3f00 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -372,7 +372,7 @@ def get_integrals4fci(mol, cavity_freq, cavity_mode, lo_method='meta-lowdin', ch
 
     qed.get_gmatao()
     gmat = qed.gmat
-    gmat_bilinear = gmat * numpy.sqrt(cavity_freq/2.0)
+    gmat_bilinear = gmat * numpy.sqrt(numpy.asarray(cavity_freq) / 2.0)[:, None, None]
     #gmat_bilinear = -gmat * numpy.sqrt(cavity_freq/2.0)
 
     enuc = mol.energy_nuc()
-- 
2.43.0


From 159d9ae45c2ebfc052e2105beb75bbe0a398838e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:32 +0000
Subject: [PATCH 13/39] fix: get_integrals4fci transformed the density with the
 already orthogonalised overlap

---
 openms/lib/boson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index c7b3f00..bbdc69b 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -391,11 +391,11 @@ def get_integrals4fci(mol, cavity_freq, cavity_mode, lo_method='meta-lowdin', ch
     # transform into orthogonal basis
     #
 
+    SC = ovlp.dot(C)
     hcore = transform_ao2mo(hcore, C)
     ovlp = transform_ao2mo(ovlp, C)
     eri = ao2mo.kernel(eri, C)
     Hep = numpy.einsum("Xpq, pm, qn -> Xmn", gmat_bilinear, C, C, optimize=True)
-    SC = ovlp.dot(C)
     dm0 = transform_ao2mo(dm0, SC)
 
     # add DSE into eri
-- 
2.43.0


From 6edc57a0d4f50c1f9e3fd4667ff70bf278872532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:05 +0000
Subject: [PATCH 14/39] fix: qedfci.contract_1e used an undefined module name

---
 openms/mqed/qedfci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/mqed/qedfci.py b/openms/mqed/qedfci.py
index cc1e913..09d3d1c 100644
--- a/openms/mqed/qedfci.py
+++ b/openms/mqed/qedfci.py
@@ -105,7 +105,7 @@ def contract_1e(h1e, fcivec, norb, nelec, nmode=0, boson_states=None):
     cishape = fboson_ci_shape(norb, nelec, nmode, boson_states)
 
     ci0 = fcivec.reshape(cishape)
-    fcinew = np.zeros_like(ci0)
+    fcinew = numpy.zeros_like(ci0)
 
     # Alpha spin contraction
     for str0, tab in enumerate(link_indexa):
-- 
2.43.0


From 999c0deecad22f808fd62e3b7a3b0e62d28ae0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:05 +0000
Subject: [PATCH 15/39] fix: qedfci.contract_2e used an undefined orbital count
 for spin-resolved integrals

---
 openms/mqed/qedfci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/mqed/qedfci.py b/openms/mqed/qedfci.py
index 09d3d1c..05b329a 100644
--- a/openms/mqed/qedfci.py
+++ b/openms/mqed/qedfci.py
@@ -146,7 +146,7 @@ def contract_2e(eri, fcivec, norb, nelec, nmode, boson_states):
     if isinstance(eri, list):
         g2e_aa = ao2mo.restore(1, eri[0], norb)
         g2e_ab = ao2mo.restore(1, eri[1], norb)
-        g2e_bb = ao2mo.restore(1, eri[2], nsorb)
+        g2e_bb = ao2mo.restore(1, eri[2], norb)
 
         t2a = numpy.dot(g2e_aa.reshape(norb**2, -1), t1a.reshape(norb**2, -1))
         t2a += numpy.dot(g2e_ab.reshape(norb**2, -1), t1b.reshape(norb**2, -1))
-- 
2.43.0


From 42e10009b8c3f216efb4939df0e03e3080baca3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:05 +0000
Subject: [PATCH 16/39] fix: qedfci.make_rdm1p used undefined names and sized
 the photon index by orbitals

---
 openms/mqed/qedfci.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/mqed/qedfci.py b/openms/mqed/qedfci.py
index 05b329a..928c7b3 100644
--- a/openms/mqed/qedfci.py
+++ b/openms/mqed/qedfci.py
@@ -791,7 +791,7 @@ def make_rdm1p(fcivec, norb, nelec, nmode, boson_states):
     cishape = fboson_ci_shape(norb, nelec, nmode, boson_states)
     ci0 = fcivec.reshape(cishape)
 
-    t1 = numpy.zeros((norb,) + cishape)
+    t1 = numpy.zeros((nmode,) + cishape)
     for imode in range(nmode):
         nboson = boson_states[imode]
         boson_cre = numpy.sqrt(numpy.arange(1, nboson + 1))
@@ -800,7 +800,7 @@ def make_rdm1p(fcivec, norb, nelec, nmode, boson_states):
             slices0 = slices_for(imode, nmode, i)
             t1[(imode,) + slices0] += ci0[slices1] * boson_cre[i]
 
-    rdm1 = lib.dot(t1.reshape(nsite, -1), t1.reshape(nsite, -1).T)
+    rdm1 = lib.dot(t1.reshape(nmode, -1), t1.reshape(nmode, -1).T)
     return rdm1
 
 
-- 
2.43.0


From 3d8dfdb2d1bf14c04d1e38f3d6d1cbcfc1bab7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:25 +0000
Subject: [PATCH 17/39] fix: qedfci.contract_bb broadcast a row of the boson
 Hamiltonian over the wrong axis for several modes

---
 openms/mqed/qedfci.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/openms/mqed/qedfci.py b/openms/mqed/qedfci.py
index 928c7b3..9e62568 100644
--- a/openms/mqed/qedfci.py
+++ b/openms/mqed/qedfci.py
@@ -347,24 +347,32 @@ def contract_bb(Hbb, fcivec, norb, nelec, nmode, boson_states, zalpha=None):
     ci0 = fcivec.reshape(cishape)
     fcinew = numpy.zeros(cishape)
 
+    if Hbb.ndim == 1:
+        Hbb = numpy.diag(Hbb)
+
     #
-    # w_x b^+_x b_x
+    # H_xy b^+_x b_y
     for imode in range(nmode):
         nboson = boson_states[imode]
-        boson_cre = numpy.sqrt(numpy.arange(1, nboson + 1))
         for i in range(1, nboson+1):
             slices0 = slices_for(imode, nmode, i)
-            fcinew[slices0] += ci0[slices0] * (Hbb[imode] * i)
+            fcinew[slices0] += ci0[slices0] * (Hbb[imode, imode] * i)
+        for jmode in range(nmode):
+            if jmode != imode and Hbb[imode, jmode] != 0:
+                tmp = des_boson(ci0, norb, nelec, nmode, boson_states, jmode)
+                tmp = cre_boson(tmp, norb, nelec, nmode, boson_states, imode)
+                fcinew += Hbb[imode, jmode] * tmp
 
     # coherent state
     if zalpha is not None:
+        wz = numpy.dot(Hbb, zalpha)
         for imode in range(nmode):
             nboson = boson_states[imode]
             boson_cre = numpy.sqrt(numpy.arange(1, nboson + 1))
             for i in range(nboson):
                 slices1 = slices_for_cre(imode, nmode, i)
                 slices0 = slices_for(imode, nmode, i)
-                tmp = zalpha[imode] * (boson_cre[i] * Hbb[imode])
+                tmp = wz[imode] * boson_cre[i]
                 fcinew[slices1] += tmp * ci0[slices0]
                 fcinew[slices0] += tmp * ci0[slices1]
     """
-- 
2.43.0


From 6f8eb73967d549ed93f470bd34e8e3d38594fac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:46 +0000
Subject: [PATCH 18/39] fix: qedfci.kernel(coherent_state=True) used undefined
 names and dropped the shift from the boson part

---
 openms/mqed/qedfci.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/openms/mqed/qedfci.py b/openms/mqed/qedfci.py
index 9e62568..fd69c1b 100644
--- a/openms/mqed/qedfci.py
+++ b/openms/mqed/qedfci.py
@@ -251,7 +251,7 @@ def absorb_h1e(h1e, eri, norb, nelec, fac=1):
         h2e[:, :, k, k] += f1e
     return h2e * fac
 
-def contract_all(H1, H2, Heb, Hbb, cin, norb, nelec, nmode, boson_states):
+def contract_all(H1, H2, Heb, Hbb, cin, norb, nelec, nmode, boson_states, zalpha=None):
     r""" """
 
     # electronic part
@@ -279,7 +279,7 @@ def contract_all(H1, H2, Heb, Hbb, cin, norb, nelec, nmode, boson_states):
 
     # bosonic term
     # print("Debug-yz: contracting bosonic interaction part")
-    cout += contract_bb(Hbb, cin, norb, nelec, nmode, boson_states)
+    cout += contract_bb(Hbb, cin, norb, nelec, nmode, boson_states, zalpha)
     # print("Debug: c after contract_bb is ", cout)
     t4 = time.time()
 
@@ -678,19 +678,16 @@ def kernel(
         print ("FCI electronic : ", e0)
     if electron_only: return e0, 0.0, 0.0
 
+    zalpha = None
     if coherent_state:
         if nroots > 1:
             dm0 = direct_spin1.make_rdm1(c[0], norb, nelec)
         else:
             dm0 = direct_spin1.make_rdm1(c, norb, nelec)
         # TODO: modify the H1, H2, Heb, Hbb with coherent state representation
-        if Hbb.ndim == 1:
-            zalpha = - numpy.einsum('xpq, qp -> x', Heb, dm0, optimize=True) / Hpp
-            ecore = ecore + np.einsum("x, x ->", Hpp, zalpha**2)
-        else:
-            tmp = -numpy.einsum('xpq, qp -> x', Heb, dm0)
-            zalpha = la.solve(Hbb, tmp)
-            ecore = ecore + np.einsum("xy, x, y ->", Hbb, zalpha, zalpha, optimize=True)
+        tmp = -numpy.einsum('xpq, qp -> x', Heb, dm0)
+        zalpha = numpy.linalg.solve(Hbb, tmp)
+        ecore = ecore + numpy.einsum("xy, x, y ->", Hbb, zalpha, zalpha, optimize=True)
         H1 = H1 + numpy.einsum('xpq, x -> pq', Heb, zalpha * 2, optimize=True)
 
 
@@ -719,7 +716,7 @@ def kernel(
     H2mod =  absorb_h1e(H1, H2, norb, nelec, 0.5)
     print("Debug: norm of modified H2 =", numpy.linalg.norm(H2mod))
     def hop(c):
-        hc = contract_all(H1, H2mod, Heb, Hbb, c, norb, nelec, nmode, boson_states)
+        hc = contract_all(H1, H2mod, Heb, Hbb, c, norb, nelec, nmode, boson_states, zalpha)
         # hc = contract_all(H1, H2, Heb, Hbb, c, norb, nelec, nmode, boson_states)
         return hc.reshape(-1)
 
-- 
2.43.0


From 644ecc6a6c4471ebcc9dbde5311d79783b7caa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:45 +0000
Subject: [PATCH 19/39] fix: QED-CCSD U2n with several photon modes crashed on
 an unused denominator (shapes of virtual orbitals and modes differ)

---
 openms/mqed/myqedcc_equations_opt.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/openms/mqed/myqedcc_equations_opt.py b/openms/mqed/myqedcc_equations_opt.py
index a9070b6..97e6cf2 100644
--- a/openms/mqed/myqedcc_equations_opt.py
+++ b/openms/mqed/myqedcc_equations_opt.py
@@ -2572,7 +2572,6 @@ def qedccsd_U2n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     #e_denom = 1 / (eps_occ.reshape(-1, 1, 1, 1) + eps_occ.reshape(-1, 1) - eps_vir.reshape(-1, 1, 1) - eps_vir_p_w)
 
@@ -2864,7 +2863,6 @@ def qedccsd_U2n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_2w = eps_vir + 2.0 * w
 
     #e_denom = 1 / (eps_occ.reshape(-1, 1, 1, 1) + eps_occ.reshape(-1, 1) - eps_vir.reshape(-1, 1, 1) - eps_vir_p_2w)
 
-- 
2.43.0


From f2a1c22014d802b50739daaab8c78a74a5dbe955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:45 +0000
Subject: [PATCH 20/39] fix: QED-CCSD U21 residual summed the wrong photon
 index of U12 (wrong for several modes)

---
 openms/mqed/myqedcc_equations_opt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/mqed/myqedcc_equations_opt.py b/openms/mqed/myqedcc_equations_opt.py
index 97e6cf2..beda88d 100644
--- a/openms/mqed/myqedcc_equations_opt.py
+++ b/openms/mqed/myqedcc_equations_opt.py
@@ -2814,11 +2814,11 @@ def qedccsd_U2n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
         gtov = einsum('xac,ci->xai', g.vv, T1old)
         gtov -= einsum('xki,ak->xai', g.oo, T1old)
-        temp_abij = einsum('xai,xybj->xabij', gtov, U1nold[1])
+        temp_abij = einsum('xai,xybj->yabij', gtov, U1nold[1])
         #T2temp = - einsum('bi,aj->abij', T1old, T1old)
         T2temp = T2old - einsum('bi,aj->abij', T1old, T1old)
         Wmvo = einsum('xkc,acik->xai', g.ov, T2temp)
-        temp_abij += einsum('xai,xybj->xabij', Wmvo, U1nold[1])
+        temp_abij += einsum('xai,xybj->yabij', Wmvo, U1nold[1])
         U2n[0] += temp_abij
         U2n[0] -= temp_abij.transpose((0,2,1,3,4))
         U2n[0] -= temp_abij.transpose((0,1,2,4,3))
-- 
2.43.0


From f4e007b05aa7f0404be914798a789117a0aa4360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:45 +0000
Subject: [PATCH 21/39] fix: QED-CCSD U22 residual lacked the quartic T1^3 U12
 and T1^2 U11^2 terms

---
 openms/mqed/myqedcc_equations_opt.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/openms/mqed/myqedcc_equations_opt.py b/openms/mqed/myqedcc_equations_opt.py
index beda88d..ade93b0 100644
--- a/openms/mqed/myqedcc_equations_opt.py
+++ b/openms/mqed/myqedcc_equations_opt.py
@@ -3254,6 +3254,16 @@ def qedccsd_U2n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
     U22 += 2.0 * einsum('kc,ci,aj,bk->abij', g.ov[0], U11old, U11old, U11old, optimize = True)
 
 
+    U22 += 1.0 * einsum('klcd,di,bk,al,cj->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += -1.0 * einsum('klcd,di,cj,ak,bl->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 1.0 * einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += -1.0 * einsum('klcd,dj,bk,al,ci->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 2.0 * einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,di,bk,cj,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += -2.0 * einsum('klcd,di,ak,cj,bl->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += -2.0 * einsum('klcd,dj,bk,ci,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,dj,ak,ci,bl->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,bk,al,di,cj->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
     U2n[1][0,0] = U22
 
     return U2n
-- 
2.43.0


From 32c8c87706f71cfd831d0d3b8a4d71c59cc3a6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:45 +0000
Subject: [PATCH 22/39] fix: QED-CCSD U12 residual double counted U11*U21 and
 T1*U22, missed half of T2*U12 and was not symmetric in the photon modes

---
 openms/mqed/myqedcc_equations_opt.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/openms/mqed/myqedcc_equations_opt.py b/openms/mqed/myqedcc_equations_opt.py
index ade93b0..57062a9 100644
--- a/openms/mqed/myqedcc_equations_opt.py
+++ b/openms/mqed/myqedcc_equations_opt.py
@@ -2427,6 +2427,8 @@ def qedccsd_U1n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
     #----------------------------
     U1n[1] += einsum('jabi,IJbj->IJai', imds.Wovvo, U1nold[1])
+    # the other half of the T2old part of Wovvo
+    U1n[1] += 0.5*einsum('jkbc,IJck,abij->IJai', I.oovv, U1nold[1], T2old, optimize = True)
     U1n[1] -= 0.5*einsum('ab,IJbi->IJai', Xvv, U1nold[1])
     U1n[1] -= 0.5*einsum('ji,IJaj->IJai', Xoo, U1nold[1])
 
@@ -2508,33 +2510,23 @@ def qedccsd_U1n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
         # vovv
         U1n[1] += -0.5*einsum('jkbc,aj,IJcbki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         # ovvo
-        U1n[1] += -1.0*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        #U1n[1] += -0.5*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        #U1n[1] += -0.5*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
+        U1n[1] += -0.5*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         # ov
-        U1n[1] += 2.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        #U1n[1] += 1.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        #U1n[1] += 1.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
+        U1n[1] += 1.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
 
         #vovv
-        U1n[1] += -2.0*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        #U1n[1] += -0.5*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
+        U1n[1] += -1.0*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Jaj,Icbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        #U1n[1] += -0.5*einsum('jkbc,Jaj,Icbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
 
         # ovvo
-        U1n[1] += -2.0*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        #U1n[1] += -0.5*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
+        U1n[1] += -1.0*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Jci,Iabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        #U1n[1] += -0.5*einsum('jkbc,Jci,Iabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
 
-        U1n[1] += 4.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        #U1n[1] += 1.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
+        U1n[1] += 2.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += 1.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += 1.0*einsum('jkbc,Jcj,Iabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        #U1n[1] += 1.0*einsum('jkbc,Jcj,Iabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         if nfock1 > 1:
             U1n[1] += -2.0*einsum('Kjb,IK,Jabji->IJai', g.ov, Snold[1], U2nold[0], optimize = True)
             #U1n[1] += -1.0*einsum('Kjb,IK,Jabji->IJai', g.ov, Snold[1], U2nold[0], optimize = True)
@@ -2557,6 +2549,9 @@ def qedccsd_U1n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
         #U1n[1] += -1.0*einsum('Kjb,bi,IK,Jaj->IJai', g.ov, T1old, Snold[1], U1nold[0], optimize = True)
         #U1n[1] += -1.0*einsum('Kjb,bi,JK,Iaj->IJai', g.ov, T1old, Snold[1], U1nold[0], optimize = True)
 
+    # the terms above keep one of the two orders of the boson indices (with twice its weight)
+    U1n[1] = 0.5*(U1n[1] + U1n[1].transpose((1,0,2,3)))
+
     return U1n
 
 
-- 
2.43.0


From 1149dc39c8cecef64a5b6d191072d1212d647102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:06 +0000
Subject: [PATCH 23/39] fix: reference QED-CCSD U2n with several photon modes
 crashed on an unused denominator

---
 openms/mqed/qedcc_equations.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/openms/mqed/qedcc_equations.py b/openms/mqed/qedcc_equations.py
index 1936a63..fb2229e 100644
--- a/openms/mqed/qedcc_equations.py
+++ b/openms/mqed/qedcc_equations.py
@@ -591,7 +591,6 @@ def qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     if nm == 1: # if single mode, we use faster single mode code (reducing indexing overhead)
         return single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps)
@@ -838,7 +837,6 @@ def qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_2w = eps_vir + 2.0 * w
 
     U2n[1] = numpy.zeros((nm, nm, nvir, nvir, nocc, nocc))
 
@@ -1386,7 +1384,6 @@ def single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     U2n = [None]*nfock2
     if U2nold[0] is None: return U2n
-- 
2.43.0


From 1b5c4293ed9f558ccfa36aff075fbd632587745d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:06 +0000
Subject: [PATCH 24/39] fix: reference QED-CCSD U12 residual counted the
 U11*U21 terms twice

---
 openms/mqed/qedcc_equations.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/openms/mqed/qedcc_equations.py b/openms/mqed/qedcc_equations.py
index fb2229e..603f4c0 100644
--- a/openms/mqed/qedcc_equations.py
+++ b/openms/mqed/qedcc_equations.py
@@ -517,12 +517,6 @@ def qedccsd_U1n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
         U1n[1] += 0.125*einsum('jkbc,ci,JIbakj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         U1n[1] += 0.625*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         U1n[1] += -0.375*einsum('jkbc,cj,JIbaki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += 1.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,Jaj,Icbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,Jci,Iabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += 1.0*einsum('jkbc,Jcj,Iabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         if nfock1 > 1:
             U1n[1] += -1.0*einsum('Kjb,IK,Jabji->IJai', g.ov, Snold[1], U2nold[0], optimize = True)
             U1n[1] += -1.0*einsum('Kjb,JK,Iabji->IJai', g.ov, Snold[1], U2nold[0], optimize = True)
-- 
2.43.0


From 351d7d8141c91d602644dfe04120fb729968ba0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:07 +0000
Subject: [PATCH 25/39] fix: reference single-mode QED-CCSD U22 residual
 skipped its S2 terms unless nfock1 > 2

---
 openms/mqed/qedcc_equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/mqed/qedcc_equations.py b/openms/mqed/qedcc_equations.py
index 603f4c0..2da24f7 100644
--- a/openms/mqed/qedcc_equations.py
+++ b/openms/mqed/qedcc_equations.py
@@ -1664,7 +1664,7 @@ def single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
     U22 += -1.0 * einsum('bacd,dj,ci->abij', I.vvvv, T1old, U12old, optimize = True)
     U22 += 1.0 * S1old * einsum('ki,bakj->abij', g.oo[0], U22old, optimize = True)
     U22 += -1.0 * S1old * einsum('kj,baki->abij', g.oo[0], U22old, optimize = True)
-    if nfock1 > 2:
+    if nfock1 > 1:
         U22 += 1.0 * S2old * einsum('ki,bakj->abij', g.oo[0], U21old, optimize = True)
         U22 += -1.0 * S2old * einsum('kj,baki->abij', g.oo[0], U21old, optimize = True)
         U22 += 1.0 * S2old * einsum('ki,bakj->abij', g.oo[0], U21old, optimize = True)
-- 
2.43.0


From 53a1c1c7296af0a722d4e31d9fab3dd09e16121a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:07 +0000
Subject: [PATCH 26/39] fix: reference single-mode QED-CCSD U21/U22 residuals
 lacked the quartic T1 terms

---
 openms/mqed/qedcc_equations.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/openms/mqed/qedcc_equations.py b/openms/mqed/qedcc_equations.py
index 2da24f7..40d6605 100644
--- a/openms/mqed/qedcc_equations.py
+++ b/openms/mqed/qedcc_equations.py
@@ -1614,6 +1614,10 @@ def single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
     U21 += 1.0 * einsum('kc,ak,bi,cj->abij', g.ov[0], T1old, U11old, U11old, optimize = True)
     U21 += -1.0 * einsum('kc,ak,ci,bj->abij', g.ov[0], T1old, U11old, U11old, optimize = True)
 
+    U21 += 1.0 * einsum('klcd,di,bk,al,cj->abij', I.oovv, T1old, T1old, T1old, U11old, optimize = True)
+    U21 += -1.0 * einsum('klcd,di,cj,ak,bl->abij', I.oovv, T1old, T1old, T1old, U11old, optimize = True)
+    U21 += 1.0 * einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, T1old, U11old, optimize = True)
+    U21 += -1.0 * einsum('klcd,dj,bk,al,ci->abij', I.oovv, T1old, T1old, T1old, U11old, optimize = True)
     U2n[0][0] = U21
 
     if nfock2 < 2: return U2n
@@ -1976,6 +1980,16 @@ def single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
 
     U2n[1] = numpy.zeros((nm, nm, nvir, nvir, nocc, nocc))
 
+    U22 += 1.0 * einsum('klcd,di,bk,al,cj->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += -1.0 * einsum('klcd,di,cj,ak,bl->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 1.0 * einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += -1.0 * einsum('klcd,dj,bk,al,ci->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 2.0 * einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,di,bk,cj,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += -2.0 * einsum('klcd,di,ak,cj,bl->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += -2.0 * einsum('klcd,dj,bk,ci,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,dj,ak,ci,bl->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,bk,al,di,cj->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
     U2n[1][0,0] = U22
 
     return U2n
-- 
2.43.0


From c3067d28c08ab3685e2317a3c552db013c99779c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:09 +0000
Subject: [PATCH 27/39] fix: HHModel.tmatS doubled the hopping of the open
 two-site chain

---
 openms/models/hh_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/models/hh_model.py b/openms/models/hh_model.py
index cf5d487..827eaea 100644
--- a/openms/models/hh_model.py
+++ b/openms/models/hh_model.py
@@ -150,7 +150,7 @@ class HHModel(object):
             nn = self._nn(i)
             t[i, nn[0]] = -1.0
             t[i, nn[1]] = -1.0
-        if L == 2:
+        if L == 2 and self.bc == "p":
             t[0, -1] += -1
             t[-1, 0] += -1
         return t
-- 
2.43.0


From 9902e0ff30e10b570d9512f2b225805d3f069b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:09 +0000
Subject: [PATCH 28/39] fix: Hubbard1D.u_fock and u_aint failed when a spin
 block of occupied or virtual orbitals is empty

---
 openms/models/hubbard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/models/hubbard.py b/openms/models/hubbard.py
index 0bf5a9c..ac7eb2c 100644
--- a/openms/models/hubbard.py
+++ b/openms/models/hubbard.py
@@ -142,7 +142,7 @@ class Hubbard1D(object):
     def u_fock(self):
         na = self.na
         nb = self.nb
-        temp = range(self.L)
+        temp = numpy.arange(self.L)
         oa = temp[:na]
         ob = temp[:nb]
         va = temp[na:]
@@ -202,7 +202,7 @@ class Hubbard1D(object):
     def u_aint(self):
         na = self.na
         nb = self.nb
-        temp = range(self.L)
+        temp = numpy.arange(self.L)
         oa = temp[:na]
         ob = temp[:nb]
         va = temp[na:]
-- 
2.43.0


From 4843dc11c8762b8057d44f59213b4d055bcb33a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:09 +0000
Subject: [PATCH 29/39] fix: HHModel with only bond couplings (gij, g=None)
 filled the coupling matrix with NaN

---
 openms/models/hh_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openms/models/hh_model.py b/openms/models/hh_model.py
index 827eaea..4bbb3f3 100644
--- a/openms/models/hh_model.py
+++ b/openms/models/hh_model.py
@@ -100,8 +100,9 @@ class HHModel(object):
             if bc == "p":
                 self.gmat[:, 0, L - 1] = self.gmat[:, L - 1, 0] = gij
                 self.gmat[:, L, -1] = self.gmat[:, -1, L] = gij
-        for i in range(L):
-            self.gmat[i, i, i] = self.gmat[i, i + L, i + L] = g
+        if g is not None:
+            for i in range(L):
+                self.gmat[i, i, i] = self.gmat[i, i + L, i + L] = g
         self.xi = numpy.einsum("Iab,ab->I", self.gmat, self.ptot) / self.w
         omega = numpy.zeros([M])
         omega.fill(self.w)
-- 
2.43.0


From 820b1df1d10b2a9a5889d033906878f34f117e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:32 +0000
Subject: [PATCH 30/39] fix: the molecular-aggregate model could not be
 constructed and its 2D spectrum failed on a missing import

---
 openms/models/aggregates.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openms/models/aggregates.py b/openms/models/aggregates.py
index 4acaf56..0599872 100644
--- a/openms/models/aggregates.py
+++ b/openms/models/aggregates.py
@@ -21,6 +21,7 @@ Disordered molecular aggregates.
 import openms.lib.backend as bd
 import numpy as np  # replace np as bd (TODO)
 import random
+import sys
 
 
 def linear_spec(elist, state, evals, dip, gamma):
@@ -130,8 +131,8 @@ class DMA(object):
         self.sigma = sigma
         self.zeta = zeta
 
-        self.A = bd.zeros((Nsite, Nsite))
-        self.En = bd.zeros(Nsite)
+        self.A = np.zeros((Nsite, Nsite))
+        self.En = np.zeros(Nsite)
         self.excdipole1 = None
         self.dipsortidx = None
         self.c0 = 0.80
-- 
2.43.0


From 2d0b159eeac38528722830aed87aa6275308d0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:14 +0000
Subject: [PATCH 31/39] fix: TrialHF.build in the MO basis picked one column
 (or failed) instead of the occupied columns of each spin

---
 openms/qmc/trial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/qmc/trial.py b/openms/qmc/trial.py
index 662c19c..5727031 100644
--- a/openms/qmc/trial.py
+++ b/openms/qmc/trial.py
@@ -773,8 +773,8 @@ class TrialHF(TrialWFBase):
             tmp = backend.identity(nmo)[:, self.mf.mo_occ > 0]
             #self.psia = self.psib = tmp
             # psia and psib may have different size, when nalpha and nbeta are different
-            self.psia = tmp[:, self.nalpha]
-            self.psib = tmp[:, self.nbeta]
+            self.psia = tmp[:, : self.nalpha]
+            self.psib = tmp[:, : self.nbeta]
 
         # print("Debug: nelec  = ", self.mol.nelec)
         # print("Debug: mo_occ = ", self.mf.mo_occ)
-- 
2.43.0


From 44bbf2a61c844f06b2dd9813bb4076408a059004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:14 +0000
Subject: [PATCH 32/39] fix: walker options of one QMC run leaked into the
 module defaults and later runs

---
 openms/qmc/qmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/qmc.py b/openms/qmc/qmc.py
index daa5471..5c9fdb0 100644
--- a/openms/qmc/qmc.py
+++ b/openms/qmc/qmc.py
@@ -355,7 +355,7 @@ class QMCbase(object):
             "quantizaiton": "second",
         }
 
-        self.walker_options = gwalker.default_walker_options
+        self.walker_options = dict(gwalker.default_walker_options)
         tmp_walker_options = kwargs.get("walker_options", None)
         # print("tmp_walker_options = ", tmp_walker_options)
         if tmp_walker_options is not None:
-- 
2.43.0


From a51337c27a443ebdf72ae76f821b7b3c65552f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:14 +0000
Subject: [PATCH 33/39] fix: per-rank random streams of a parallel run were
 created and discarded, leaving the ranks unseeded

---
 openms/qmc/qmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/qmc.py b/openms/qmc/qmc.py
index 5c9fdb0..92d5165 100644
--- a/openms/qmc/qmc.py
+++ b/openms/qmc/qmc.py
@@ -917,7 +917,7 @@ class QMCbase(object):
             # Create a rank-specific seed using SeedSequence
             ss = backend.random.SeedSequence(self.random_seed)
             child_seeds = ss.spawn(self._mpi.size)
-            backend.random.default_rng(child_seeds[self._mpi.rank])
+            backend.random.seed(child_seeds[self._mpi.rank].generate_state(4))
         else:
             backend.random.seed(self.random_seed)
 
-- 
2.43.0


From 7d1292df8af9e27bcf01e0a11c4b921af7cb4bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:14 +0000
Subject: [PATCH 34/39] fix: the hybrid energy of a walker did not follow it
 through population control

---
 openms/qmc/generic_walkers.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/openms/qmc/generic_walkers.py b/openms/qmc/generic_walkers.py
index ba23203..3f1db96 100644
--- a/openms/qmc/generic_walkers.py
+++ b/openms/qmc/generic_walkers.py
@@ -190,15 +190,19 @@ class BaseWalkers(object):
 
 
     def _pack_walkers(self):
-        r"""pack walkers into list for population control"""
+        r"""pack walkers into list for population control
+
+        Besides the wavefunctions, the hybrid energy of the last step belongs to
+        the walker (it enters its next weight update) and has to follow it.
+        """
         if self.boson_phiw is not None and self.ncomponents > 1:
-            packed_walkers = [[self.phiwa[i], self.phiwb[i], self.boson_phiw[i]] for i in range(self.nwalkers)]
+            packed_walkers = [[self.phiwa[i], self.phiwb[i], self.boson_phiw[i], self.ehybrid[i]] for i in range(self.nwalkers)]
         elif self.boson_phiw is None and self.ncomponents > 1:
-            packed_walkers = [[self.phiwa[i], self.phiwb[i]] for i in range(self.nwalkers)]
+            packed_walkers = [[self.phiwa[i], self.phiwb[i], self.ehybrid[i]] for i in range(self.nwalkers)]
         elif self.boson_phiw is not None and self.ncomponents == 1:
-            packed_walkers = [[self.phiwa[i], self.boson_phiw[i]] for i in range(self.nwalkers)]
+            packed_walkers = [[self.phiwa[i], self.boson_phiw[i], self.ehybrid[i]] for i in range(self.nwalkers)]
         else:
-            packed_walkers = [self.phiwa[i] for i in range(self.nwalkers)]
+            packed_walkers = [[self.phiwa[i], self.ehybrid[i]] for i in range(self.nwalkers)]
         return packed_walkers
 
 
@@ -216,7 +220,8 @@ class BaseWalkers(object):
             self.phiwa = backend.array([new_walkers[i][0] for i in range(self.nwalkers)])
             self.boson_phiw = backend.array([new_walkers[i][1] for i in range(self.nwalkers)])
         else:
-            self.phiwa = backend.array([new_walkers[i] for i in range(self.nwalkers)])
+            self.phiwa = backend.array([new_walkers[i][0] for i in range(self.nwalkers)])
+        self.ehybrid = backend.array([new_walkers[i][-1] for i in range(self.nwalkers)])
 
 
 from openms.qmc.trial import multiCI
-- 
2.43.0


From 1b445e9c6b594b2749e844f95f04cc01483332f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:24 +0000
Subject: [PATCH 35/39] fix: boson local energy and propagator failed for modes
 with different Fock truncations

---
 openms/qmc/estimators.py  | 6 ++----
 openms/qmc/propagators.py | 5 ++---
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/openms/qmc/estimators.py b/openms/qmc/estimators.py
index 58a1a74..eefe429 100644
--- a/openms/qmc/estimators.py
+++ b/openms/qmc/estimators.py
@@ -626,11 +626,9 @@ def local_eng_boson_2nd(omega, nboson_states, Gb):
     Gb: ndarray, bosonic green function
     """
     # bosonc energy
-    basis = backend.asarray(
-        [backend.arange(mdim) for mdim in nboson_states]
+    waTa = backend.concatenate(
+        [freq * backend.arange(mdim) for freq, mdim in zip(omega, nboson_states)]
     )
-
-    waTa = backend.einsum("m, mF->mF", omega, basis).ravel()
     eb = backend.einsum("F,zFF->z", waTa, Gb)
     #print("Debug: Bosonic Gf = ", Gb)
     #print("Debug: waTa =       ", waTa)
diff --git a/openms/qmc/propagators.py b/openms/qmc/propagators.py
index f5fe13c..8c21b1d 100644
--- a/openms/qmc/propagators.py
+++ b/openms/qmc/propagators.py
@@ -1131,10 +1131,9 @@ class PhaselessElecBoson(Phaseless):
         self.geb = geb
 
         nmodes = self.system.nmodes
-        basis = backend.asarray(
-            [backend.arange(mdim) for mdim in self.system.nboson_states]
+        waTa = backend.concatenate(
+            [freq * backend.arange(mdim) for freq, mdim in zip(self.system.boson_freq, self.system.nboson_states)]
         )
-        waTa = backend.einsum("m, mF->mF", self.system.boson_freq, basis).ravel()
         self.Hb = backend.diag(waTa)
         # logger.debug(self, f"Debug: Hb = {self.Hb}")
 
-- 
2.43.0


From 3d4e9064241dc9a00c08cf3ef9cab61dc86391f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:24 +0000
Subject: [PATCH 36/39] fix: parallel electron-boson local energy mixed
 process-local energies with the global weight

---
 openms/qmc/propagators.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openms/qmc/propagators.py b/openms/qmc/propagators.py
index 8c21b1d..7d87f44 100644
--- a/openms/qmc/propagators.py
+++ b/openms/qmc/propagators.py
@@ -1207,6 +1207,12 @@ class PhaselessElecBoson(Phaseless):
         eb = backend.dot(walkers.weights, eb.real)
         eg = backend.dot(walkers.weights, eg.real)
 
+        if walkers._mpi.size > 1:
+            # the norm and electronic energies were reduced over the nodes in super()
+            etot = walkers._mpi.comm.allreduce(etot, op=MPI.SUM)
+            eb = walkers._mpi.comm.allreduce(eb, op=MPI.SUM)
+            eg = walkers._mpi.comm.allreduce(eg, op=MPI.SUM)
+
         logger.debug(self, f"Debug: total energy (unnormalized) is {etot}")
         logger.debug(self, f"Debug: e1 (unnormalized) is {e1}")
         logger.debug(self, f"Debug: e2 (unnormalized) is {e2}")
-- 
2.43.0


From 2eefdef7bbb79cdd1da6cf348895c04a2c69a72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:24 +0000
Subject: [PATCH 37/39] fix: read_fcidump dropped the (rs|pq) images of a dump
 with 8-fold symmetry

---
 openms/qmc/tools.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openms/qmc/tools.py b/openms/qmc/tools.py
index 0ff0d56..0d5bd66 100644
--- a/openms/qmc/tools.py
+++ b/openms/qmc/tools.py
@@ -316,6 +316,11 @@ def read_fcidump(fname, norb):
                 eri[q - 1, p - 1, r - 1, s - 1] = integral
                 eri[p - 1, q - 1, s - 1, r - 1] = integral
                 eri[q - 1, p - 1, s - 1, r - 1] = integral
+                # and (pq|rs)=(rs|pq), only one of which is dumped
+                eri[r - 1, s - 1, p - 1, q - 1] = integral
+                eri[s - 1, r - 1, p - 1, q - 1] = integral
+                eri[r - 1, s - 1, q - 1, p - 1] = integral
+                eri[s - 1, r - 1, q - 1, p - 1] = integral
             elif p != 0:
                 h1e[p - 1, q - 1] = integral
                 h1e[q - 1, p - 1] = integral
-- 
2.43.0


From 2d649a1693abd00fa3346f88642f1f9d5c3dbd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:32 +0000
Subject: [PATCH 38/39] fix: densities in the original Fock representation used
 wrong displaced-state coefficients and basis transformation

---
 openms/mqed/qedhf.py   |  4 ++--
 openms/mqed/scqedhf.py | 15 +++++++--------
 openms/mqed/vtqedhf.py | 16 +++++++---------
 3 files changed, 16 insertions(+), 19 deletions(-)

diff --git a/openms/mqed/qedhf.py b/openms/mqed/qedhf.py
index 12abcb3..ae79e02 100644
--- a/openms/mqed/qedhf.py
+++ b/openms/mqed/qedhf.py
@@ -836,8 +836,8 @@ class RHF(hf.RHF):
                 zalpha = self.qed.z_alpha[imode]
 
                 z0 = numpy.exp(-0.5 * zalpha ** 2)
-                zm = z0 * zalpha ** m * numpy.sqrt(factorial(m))
-                zn = z0 * zalpha ** n * numpy.sqrt(factorial(n))
+                zm = z0 * zalpha ** m / numpy.sqrt(factorial(m))
+                zn = z0 * zalpha ** n / numpy.sqrt(factorial(n))
                 rho_tmp = rho * zm * zn
                 # back to AO
                 rho_tot[m, :, n, :] = rho_tmp
diff --git a/openms/mqed/scqedhf.py b/openms/mqed/scqedhf.py
index 4b5e6dc..3d6dbcb 100644
--- a/openms/mqed/scqedhf.py
+++ b/openms/mqed/scqedhf.py
@@ -1149,27 +1149,26 @@ class RHF(qedhf.RHF):
 
         # transform rho into dipole basis
         U = self.ao2dipole[imode]
-        Uinv = linalg.inv(U)
-        rho_DO = unitary_transform(U, rho)
+        rho_DO = self.get_dm_do(rho, U)
 
         rho_tot = numpy.zeros((nfock, nao, nfock, nao))
         for m in range(nfock):
             for n in range(nfock):
                 # <m | D(z_alpha) |0>
-                zalpha = self.qed.couplings_var[imode] * self.eta[imode]
-                zalpha /= self.qed.omega[imode]
+                zalpha = self.eta[imode] / self.qed.omega[imode]
 
                 z0 = numpy.exp(-0.5 * zalpha ** 2)
-                zm = z0 * zalpha ** m * numpy.sqrt(factorial(m))
-                zn = z0 * (-zalpha) ** n * numpy.sqrt(factorial(n))
+                zm = z0 * zalpha ** m / numpy.sqrt(factorial(m))
+                zn = z0 * zalpha ** n / numpy.sqrt(factorial(n))
 
                 rho_tmp = rho_DO * numpy.outer(zm, zn)
                 # back to AO
-                rho_tmp = unitary_transform(Uinv, rho_tmp)
+                rho_tmp = unitary_transform(U.T, rho_tmp)
                 rho_tot[m, :, n, :] = rho_tmp
 
         rho_e = numpy.einsum("mpmq->pq", rho_tot)
-        rho_b = numpy.einsum("mpnp->mn", rho_tot) / numpy.trace(rho)
+        rho_b = numpy.einsum("mpnq,qp->mn", rho_tot, self.get_ovlp(self.mol))
+        rho_b /= numpy.trace(rho_DO)
 
         return rho_tot, rho_e, rho_b
 
diff --git a/openms/mqed/vtqedhf.py b/openms/mqed/vtqedhf.py
index b94fd67..cb3f0d5 100644
--- a/openms/mqed/vtqedhf.py
+++ b/openms/mqed/vtqedhf.py
@@ -646,30 +646,28 @@ class RHF(scqedhf.RHF):
         imode = 0
 
         U = self.ao2dipole[imode]
-        Uinv = linalg.inv(U)
         # transform into Dipole
-        rho_DO = scqedhf.unitary_transform(U, rho)
+        rho_DO = self.get_dm_do(rho, U)
 
         tau = numpy.exp(self.qed.squeezed_var[imode])
         rho_tot = numpy.zeros((nfock, nao, nfock, nao))
         for m in range(nfock):
             for n in range(nfock):
                 # <m | D(z_alpha) |0>
-                zalpha = tau * self.qed.couplings_var[imode] * self.eta[imode]
-                zalpha /= self.qed.omega[imode]
+                zalpha = tau * self.eta[imode] / self.qed.omega[imode]
 
                 z0 = numpy.exp(-0.5 * zalpha ** 2)
-                zm = z0 * zalpha ** m * numpy.sqrt(math.factorial(m))
-                # zn = z0 * (-zalpha) ** n * numpy.sqrt(math.factorial(n))
-                zn = z0 * (zalpha) ** n * numpy.sqrt(math.factorial(n))
+                zm = z0 * zalpha ** m / numpy.sqrt(math.factorial(m))
+                zn = z0 * zalpha ** n / numpy.sqrt(math.factorial(n))
 
                 rho_tmp = rho_DO * numpy.outer(zm, zn)
                 # back to AO
-                rho_tmp = scqedhf.unitary_transform(Uinv, rho_tmp)
+                rho_tmp = scqedhf.unitary_transform(U.T, rho_tmp)
                 rho_tot[m, :, n, :] = rho_tmp
 
         rho_e = numpy.einsum("mpmq->pq", rho_tot)
-        rho_b = numpy.einsum("mpnp->mn", rho_tot) / numpy.trace(rho_e)
+        rho_b = numpy.einsum("mpnq,qp->mn", rho_tot, self.get_ovlp(self.mol))
+        rho_b /= numpy.trace(rho_DO)
 
         return rho_tot, rho_e, rho_b
 
-- 
2.43.0


From 4389df418dcf00096c2b7a9caaf0525e2c7fd2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:32 +0000
Subject: [PATCH 39/39] fix: level shift raised NameError in QED-HF

---
 openms/mqed/qedhf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/mqed/qedhf.py b/openms/mqed/qedhf.py
index ae79e02..16caf13 100644
--- a/openms/mqed/qedhf.py
+++ b/openms/mqed/qedhf.py
@@ -393,7 +393,7 @@ def get_fock(
         params = diis.update(s1e, dm, f, mf, h1e, vhf, var=variables, var_grad=gradients)
         f = mf.set_params(params, fock_shape=f.shape)
     if abs(level_shift_factor) > 1e-4:
-        f = level_shift(s1e, dm * 0.5, f, level_shift_factor) # TODO: will produce error if level_shift is used
+        f = hf.level_shift(s1e, dm * 0.5, f, level_shift_factor)
     return f
 
 
-- 
2.43.0

