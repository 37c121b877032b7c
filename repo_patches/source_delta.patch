From b3449f582a389d18cbffe45b8b2708be159f0b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:39:14 +0000
Subject: [PATCH 1/6] fix: pass the second orbital set to get_chem in
 get_chem_anti

get_chem_anti ignored its o2 argument and transformed o1 twice, so the
returned integrals were wrong whenever o1 and o2 differ.
---
 cqcpy/integrals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cqcpy/integrals.py b/cqcpy/integrals.py
index c115f61..c2b7918 100644
--- a/cqcpy/integrals.py
+++ b/cqcpy/integrals.py
@@ -22,7 +22,7 @@ def get_chem(mol, o1, o2, o3, o4, anti=False):
 def get_chem_anti(mol, o1, o2, o3, o4):
     """Get antisymmetrized ERIs in chemist's notation for given
     orbital Coeffs."""
-    return get_chem(mol, o1, o1, o3, o4, anti=True)
+    return get_chem(mol, o1, o2, o3, o4, anti=True)
 
 
 def get_phys(mol, o1, o2, o3, o4, anti=False):
-- 
2.43.0


From 31b4486eddda277f285a339f57c0c4185612f710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:54 +0000
Subject: [PATCH 2/6] fix: loop over occupied orbitals in q_strings

The two outer loops ran over the occupation numbers instead of the indices
of the occupied orbitals, so quadruples were duplicated or missing.
---
 cqcpy/ci_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index e0b233a..6f0c98a 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -140,9 +140,9 @@ def q_strings(n, nocc, occ=None):
     ivir = [i for i, x in enumerate(vir) if x > 0]
     ref = Dstring(n, occ)
     dlist = []
-    for i in occ:
+    for i in iocc:
         for a in ivir:
-            for j in occ:
+            for j in iocc:
                 if j <= i:
                     continue
                 for b in ivir:
-- 
2.43.0


From f9419147572ab4ff77a51add121aef4e60ccfcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:54 +0000
Subject: [PATCH 3/6] fix: use the reference of the CI basis by default in
 gmakeCfromT

The default occupation had half the required length, so every call without
an explicit occupation failed an assertion.
---
 cqcpy/ci_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index 6f0c98a..0640ed8 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -431,7 +431,11 @@ def gmakeCfromT(no, nv, T1, T2, order=2, occ=None):
         raise Exception("Higher than 4th order is not supported")
 
     if occ is None:
-        occ = [1 if i < no else 0 for i in range(nmo//2)]
+        nb = no//2
+        na = no - nb
+        occa = [1 if i < na else 0 for i in range(nmo//2)]
+        occb = [1 if i < nb else 0 for i in range(nmo//2)]
+        occ = occa + occb
     vir = [1 if x == 0 else 0 for x in occ]
     iocc = [i for i, x in enumerate(occ) if x > 0]
     ivir = [i for i, x in enumerate(vir) if x > 0]
-- 
2.43.0


From ecc053b72514588cd11c8bd97e27ab7eff5d9164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:54 +0000
Subject: [PATCH 4/6] fix: add the constant to diagonal elements in
 gci_matrixel

The constant shift was accepted but never used.
---
 cqcpy/ci_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index 0640ed8..3e9b89c 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -1283,7 +1283,7 @@ def gci_matrixel(bra, ket, h, I, const):
         Hel = numpy.einsum('ii,i->', h, p)
         Hel += 0.5*numpy.einsum('ijij,i,j->', I, p, p)
         Hel -= 0.5*numpy.einsum('ijji,i,j->', I, p, p)
-        return Hel
+        return Hel + const
     elif ddd == 1:
         o = numpy.nonzero(ao)[0][0]
         v = numpy.nonzero(av)[0][0]
-- 
2.43.0


From cd36ea97a50a7bcba845fe5a1b49f9a693bed104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:54 +0000
Subject: [PATCH 5/6] fix: phase of double excitations in gci_matrixel

When both target orbitals lie on the same side of both source orbitals the
two moves cross and the element changes sign, as ci_matrixel already does.
---
 cqcpy/ci_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index 3e9b89c..34899cb 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -1308,8 +1308,9 @@ def gci_matrixel(bra, ket, h, I, const):
         sign1 = 1.0 if b[i1 + 1:i2].sum() % 2 == 0 else -1.0
         sign2 = 1.0 if b[j1 + 1:j2].sum() % 2 == 0 else -1.0
         # from Ha
+        sign = -sign1*sign2 if (v2 < o1 or o2 < v1) else sign1*sign2
         Hel = I[v1, v2, o1, o2] - I[v1, v2, o2, o1]
-        return sign1*sign2*Hel
+        return sign*Hel
     else:
         return 0.0
 
-- 
2.43.0


From 69ee40d9f2792e8835eb99611c414e76b78e6254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:54 +0000
Subject: [PATCH 6/6] fix: include the T1b^2 T2aa term in makeCfromT at fourth
 order

The product of two beta singles and an alpha-alpha double was left out of
the quadruple coefficients.
---
 cqcpy/ci_utils.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index 34899cb..4d1208f 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -1121,6 +1121,28 @@ def makeCfromT(noa, nva, nob, nvb, T1a, T1b, T2aa, T2ab, T2bb, order=2):
                                         if bstr is not None and astr is not None:
                                             idx = basis.index((astr, bstr))
                                             C[idx] += sa*s1*s2*s3*T1a[a, i]*T1b[b, j]*T2bb[c, d, k, l]
+        # loop over T1b^2*T2aa
+        for i in range(nob):
+            for j in range(nob):
+                for k in range(noa):
+                    for l in range(k+1, noa):
+                        for a in range(nvb):
+                            for b in range(nvb):
+                                for c in range(nva):
+                                    for d in range(c+1, nva):
+                                        sb1, bstr = refb.excite(i, a + nob)
+                                        if bstr is None:
+                                            continue
+                                        sb2, bstr = bstr.excite(j, b + nob)
+                                        if bstr is None:
+                                            continue
+                                        sa1, astr = refa.excite(k, c + noa)
+                                        if astr is None:
+                                            continue
+                                        sa2, astr = astr.excite(l, d + noa)
+                                        if bstr is not None and astr is not None:
+                                            idx = basis.index((astr, bstr))
+                                            C[idx] += sa1*sa2*sb1*sb2*T1b[a, i]*T1b[b, j]*T2aa[c, d, k, l]/2.0
         # loop over T1b^2*T2ab
         for i in range(nob):
             for j in range(nob):
-- 
2.43.0

