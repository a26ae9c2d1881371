From 4c2ac157d1afcdd7aafd274853b808980af7f57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 01/75] fix: trapz_rebin raises the documented ValueError when
 x and y lengths differ

The compiled rebinning loops read past the end of a shorter y (or silently
ignored the tail of a longer one) instead of raising ValueError as documented.
---
 py/redrock/rebin.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py/redrock/rebin.py b/py/redrock/rebin.py
index caa1b5c..2e8ad35 100644
--- a/py/redrock/rebin.py
+++ b/py/redrock/rebin.py
@@ -340,6 +340,11 @@ def trapz_rebin(x, y, xnew=None, edges=None, myz=None, use_gpu=False, xmin=None,
     if (edge_min < xmin or edge_max > xmax):
         raise ValueError('edges must be within input x range')
 
+    #The input grid and every basis must have the same length, otherwise the
+    #compiled loops would index past the end of the shorter array
+    if len(x) != y.shape[-1]:
+        raise ValueError('x and y must have the same length')
+
     if (not use_gpu and scalar_z and len(y.shape) == 1):
         #Special case, call _trapz_rebin_1d directly
         result = np.zeros(nbins, dtype=np.float64)
-- 
2.43.0


From df437ba993f127b75f81c2af0abbc7d3f547f030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 02/75] fix: Inoue14 Lyman continuum LAF term for z<1.2

The 1.2<=z<4.7 expression of Inoue et al. 2014 also overwrote the z<1.2 one.
---
 py/redrock/igm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/igm.py b/py/redrock/igm.py
index 48afdfa..7d000b0 100644
--- a/py/redrock/igm.py
+++ b/py/redrock/igm.py
@@ -212,7 +212,7 @@ class Inoue14(object):
         y0 = x0 & (zS[:,None] < z1LAF)
         tLCLAF_value[y0] = 0.3248 * (power(lobs[y0]/lamL, 1.2) - (power(1.0+zS[:,None], -9e-1)*y0)[y0] * power(lobs[y0]/lamL, 2.1))
 
-        y0 = x0 & (zS[:,None] < z2LAF)
+        y0 = x0 & (zS[:,None] >= z1LAF) & (zS[:,None] < z2LAF)
         x1 = lobs >= lamL*(1+z1LAF)
         tLCLAF_value[y0 & x1] = 2.545e-2 * ((power(1.0+zS[:,None], 1.6)*y0)[y0 & x1] * power(lobs[y0 & x1]/lamL, 2.1) - power(lobs[y0 & x1]/lamL, 3.7))
         tLCLAF_value[y0 & ~x1] = 2.545e-2 * (power(1.0+zS[:,None], 1.6)*y0)[y0 & ~x1] * power(lobs[y0 & ~x1]/lamL, 2.1) + 0.3248 * power(lobs[y0 & ~x1]/lamL, 1.2) - 0.2496 * power(lobs[y0 & ~x1]/lamL, 2.1)
-- 
2.43.0


From 64bfbc0660fde9e554288bb130d3f373c4b521d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 03/75] fix: DistTemplate with more MPI processes than template
 redshifts

A rank left without redshifts crashed taking the max of an empty array.
---
 py/redrock/templates.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/py/redrock/templates.py b/py/redrock/templates.py
index a12a86b..f3c3edf 100644
--- a/py/redrock/templates.py
+++ b/py/redrock/templates.py
@@ -581,6 +581,13 @@ class DistTemplate(object):
         # compute our local redshifts
         # This will rebin template for all z on either GPU or CPU and
         # return a dict of three 3-d arrays (nz x nlambda x nbasis)
+        if len(myz) == 0:
+            # More processes than redshifts: nothing to rebin on this one
+            data = { hs : np.zeros((0, len(wave), self._template.nbasis))
+                     for hs, wave in self._dwave.items() }
+            self._piece = DistTemplatePiece(self._comm_rank, myz, data)
+            return
+
         data = rebin_template(self._template, myz, self._dwave, use_gpu=use_gpu)
 
         # Correct spectra for Lyman-series
-- 
2.43.0


From 9c6ea301d655b1408bc04d6dbc354c27cb7613a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 04/75] fix: pair chi2 scans with the right target when spectra
 counts differ

The work distribution orders target IDs by number of spectra, while the target
data kept their input order: with targets having different numbers of spectra,
DistTargetsCopy without MPI and the multiprocessing scan assigned the chi2 of
one target to another.
---
 py/redrock/targets.py | 4 +++-
 py/redrock/zscan.py   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 9a4780e..9887d39 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -558,7 +558,9 @@ class DistTargetsCopy(DistTargets):
 
         self._my_data = None
         if comm is None:
-            self._my_data = targets
+            # same order as the target IDs, which are sorted by workload
+            tbuf = { tg.id : tg for tg in targets }
+            self._my_data = [ tbuf[x] for x in self._my_targets ]
         else:
             tbuf = dict()
             for tg in targets:
diff --git a/py/redrock/zscan.py b/py/redrock/zscan.py
index 51f383f..4861ac1 100644
--- a/py/redrock/zscan.py
+++ b/py/redrock/zscan.py
@@ -1054,7 +1054,9 @@ def calc_zchi2_targets(targets, templates, mp_procs=1, use_gpu=False):
                 if len(mpdist[i]) == 0:
                     continue
                 target_ids = mpdist[i]
-                target_data = [ x for x in targets.local() if x.id in mpdist[i] ]
+                #- same order as target_ids, which are sorted by workload
+                local_data = { x.id : x for x in targets.local() }
+                target_data = [ local_data[tid] for tid in target_ids ]
                 p = mp.Process(target=_mp_calc_zchi2,
                     args=(i, target_ids, target_data, t, use_gpu, qout, qprog))
                 procs.append(p)
-- 
2.43.0


From 110fbe84acee7925f6529af49f882354ccc0c662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 05/75] fix: report coefficients at the reported redshift when
 the parabola minimum is outside the fit range

When the parabola vertex fell outside the finely sampled range, z and chi2
were replaced by the minimum of the scan but the coefficients (and, for
archetypes, the IGM transmission) were still those of the rejected vertex,
which could be any redshift, or zero.
---
 py/redrock/fitz.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/py/redrock/fitz.py b/py/redrock/fitz.py
index 82bb65d..af84e02 100644
--- a/py/redrock/fitz.py
+++ b/py/redrock/fitz.py
@@ -260,24 +260,34 @@ def fitz(zchi2, redshifts, target, template, nminima=3, archetype=None, use_gpu=
         i = min(max(np.argmin(zzchi2),1), len(zz)-2)
         zmin, sigma, chi2min, zwarn = minfit(zz[i-1:i+2], zzchi2[i-1:i+2])
 
+        zbest = zmin
+        zerr = sigma
+
+        #- parabola minimum outside fit range; replace with min of scan
+        if zbest < zz[0] or zbest > zz[-1]:
+            zwarn |= ZW.BAD_MINFIT
+            imin = np.where(zzchi2 == np.min(zzchi2))[0][0]
+            zbest = zz[imin]
+            chi2min = zzchi2[imin]
+
         #trans = dict()
         trans = { hs:None for hs, w in dwave.items() } #define trans with keys and None values
         try:
             #Calculate xmin and xmax from template and pass as scalars
-            xmin = template.minwave*(1+zmin)
-            xmax = template.maxwave*(1+zmin)
+            xmin = template.minwave*(1+zbest)
+            xmax = template.maxwave*(1+zbest)
             if (use_gpu):
                 #Use gpuedges already calculated and on GPU
-                binned = rebin_template(template, cp.array([zmin]), dedges=gpuedges, use_gpu=use_gpu, xmin=xmin, xmax=xmax)
+                binned = rebin_template(template, cp.array([zbest]), dedges=gpuedges, use_gpu=use_gpu, xmin=xmin, xmax=xmax)
             else:
-                binned = rebin_template(template, np.array([zmin]), dwave, use_gpu=use_gpu, xmin=xmin, xmax=xmax)
+                binned = rebin_template(template, np.array([zbest]), dwave, use_gpu=use_gpu, xmin=xmin, xmax=xmax)
             for k in list(dwave.keys()):
                 if (use_gpu):
                     #Copy binned[k] back to CPU to perform next steps on CPU
                     #because faster with only 1 redshift
                     binned[k] = binned[k].get()
                 #Use CPU always
-                T = transmission_Lyman(np.array([zmin]),dwave[k], use_gpu=False, always_return_array=False,
+                T = transmission_Lyman(np.array([zbest]),dwave[k], use_gpu=False, always_return_array=False,
                                        model=template.igm_model)
                 trans[k] = T
                 if (T is None):
@@ -303,16 +313,6 @@ def fitz(zchi2, redshifts, target, template, nminima=3, archetype=None, use_gpu=
                 #- Unknown problem; re-raise error
                 raise err
 
-        zbest = zmin
-        zerr = sigma
-
-        #- parabola minimum outside fit range; replace with min of scan
-        if zbest < zz[0] or zbest > zz[-1]:
-            zwarn |= ZW.BAD_MINFIT
-            imin = np.where(zzchi2 == np.min(zzchi2))[0][0]
-            zbest = zz[imin]
-            chi2min = zzchi2[imin]
-
         #- Initial minimum or best fit too close to edge of redshift range
         if zbest < redshifts[1] or zbest > redshifts[-2]:
             zwarn |= ZW.Z_FITLIMIT
-- 
2.43.0


From 122c691e69e6d08d00fb28eada03331dc167ac55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 06/75] fix: merge targets with different sets of templates
 into one table

A template without any minimum for a target (e.g. a tophat prior outside its
redshift grid) made the coeff column of that target narrower than those of the
other targets, and stacking the tables raised TableMergeError.
---
 py/redrock/zfind.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index e2fd2fd..2d8f01b 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -517,6 +517,10 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
                 del allresults[tid][fulltype]['zfit']
 
             maxncoeff = max([tmp['coeff'].shape[1] for tmp in tzfit])
+            if archetypes is None:
+                #- same width for all targets, even those without any minima
+                #- for the template with the most coefficients (e.g. priors)
+                maxncoeff = max([maxncoeff] + [t.template.nbasis for t in templates])
 
             for tmp in tzfit:
                 if tmp['coeff'].shape[1] < maxncoeff:
-- 
2.43.0


From 7582e8c1993662043db510dc9210aa122501be7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 07/75] fix: Template.eval applies the IGM transmission used by
 the fit

Models evaluated from best-fit coefficients (eval_model, rrdesi --model) left
out the Lyman transmission of the template, so for high redshift QSOs they were
not the model that was fit.
---
 py/redrock/templates.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py/redrock/templates.py b/py/redrock/templates.py
index f3c3edf..4a62f09 100644
--- a/py/redrock/templates.py
+++ b/py/redrock/templates.py
@@ -266,6 +266,10 @@ class Template(object):
         coeff = coeff[0:self.nbasis]
         flux = self.flux.T.dot(coeff).T
         model = trapz_rebin(self.wave*(1+z), flux, wave)
+        #- same IGM transmission as used for the fit
+        T = transmission_Lyman(z, wave, model=self.igm_model, always_return_array=False)
+        if T is not None:
+            model = model * T
         if R is not None:
             model = R.dot(model)
 
-- 
2.43.0


From 038786cf1599a04bfa24e812a8ff352043b0a3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 08/75] fix: raise instead of waiting forever when a worker
 process failed

If a multiprocessing worker of the chi2 scan or of the refinement raised an
exception or was killed, the parent waited forever for its result.
---
 py/redrock/utils.py | 25 +++++++++++++++++++++++++
 py/redrock/zfind.py |  5 +++--
 py/redrock/zscan.py |  7 ++++---
 3 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/py/redrock/utils.py b/py/redrock/utils.py
index 599d88f..8e149a4 100644
--- a/py/redrock/utils.py
+++ b/py/redrock/utils.py
@@ -182,6 +182,31 @@ def mp_array(original):
     nd.shape = shape
     return nd
 
+def mp_get(queue, procs):
+    """Get an item from a queue that is filled by worker processes.
+
+    Args:
+        queue (multiprocessing.Queue): the queue to read.
+        procs (list): the multiprocessing.Process objects which fill it.
+
+    Returns:
+        object: the next item in the queue.
+
+    Raises RuntimeError if a worker failed, instead of waiting forever for
+    an item that the worker can no longer send.
+    """
+    from queue import Empty
+    while True:
+        try:
+            return queue.get(timeout=1.0)
+        except Empty:
+            failed = [ p for p in procs if p.exitcode not in (None, 0) ]
+            if len(failed) > 0:
+                for p in procs:
+                    p.terminate()
+                raise RuntimeError("{} of {} worker processes failed"\
+                    .format(len(failed), len(procs)))
+
 def distribute_work(nproc, ids, weights=None, capacities=None):
     """Helper function to distribute work among processes with varying capacities.
 
diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index 2d8f01b..7d42055 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -17,7 +17,7 @@ import astropy.table
 
 from . import constants
 
-from .utils import elapsed, extra_columns_in_archetype_mode
+from .utils import elapsed, extra_columns_in_archetype_mode, mp_get
 
 from .targets import distribute_targets
 
@@ -99,6 +99,7 @@ def _mp_fitz(chi2, target_data, t, nminima, qout, archetype, use_gpu, deg_legend
         lines = [ "MP calc_zchi2: {}".format(x) for x in lines ]
         print("".join(lines))
         sys.stdout.flush()
+        raise
 
 def calc_deltachi2(chi2, z, zwarn, dvlimit=constants.max_velo_diff):
     '''
@@ -391,7 +392,7 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
             for i in range(mp_procs):
                 if len(mpdist[i]) == 0:
                     continue
-                res = qout.get()
+                res = mp_get(qout, procs)
                 for rs in res:
                     results[rs[0]][ft]['zfit'] = rs[1]
 
diff --git a/py/redrock/zscan.py b/py/redrock/zscan.py
index 4861ac1..6a23f47 100644
--- a/py/redrock/zscan.py
+++ b/py/redrock/zscan.py
@@ -30,7 +30,7 @@ cp = None
 #and attempts will be made to minimize memory usage to under 4 GB
 cp_memcheck = False
 
-from .utils import elapsed
+from .utils import elapsed, mp_get
 
 from .targets import distribute_targets
 
@@ -905,6 +905,7 @@ def _mp_calc_zchi2(indx, target_ids, target_data, t, use_gpu, qout, qprog):
         lines = [ "MP calc_zchi2: {}".format(x) for x in lines ]
         print("".join(lines))
         sys.stdout.flush()
+        raise
 
 
 def calc_zchi2_targets(targets, templates, mp_procs=1, use_gpu=False):
@@ -1072,7 +1073,7 @@ def calc_zchi2_targets(targets, templates, mp_procs=1, use_gpu=False):
             tot = 0
             proglast = 0
             while (tot < ntarget):
-                cnt = qprog.get()
+                cnt = mp_get(qprog, procs)
                 tot += cnt
                 prg = int(100.0 * tot / ntarget)
                 if prg >= proglast + progincr:
@@ -1085,7 +1086,7 @@ def calc_zchi2_targets(targets, templates, mp_procs=1, use_gpu=False):
             zcoeff = dict()
             penalty = dict()
             for _ in range(len(procs)):
-                res = qout.get()
+                res = mp_get(qout, procs)
                 tids = mpdist[res[0]]
                 for j,tid in enumerate(tids):
                     zchi2[tid] = res[1][j]
-- 
2.43.0


From 5645da9fdbd3244bd77f249a5bc30cad510858cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:04 +0000
Subject: [PATCH 09/75] fix: DistTargetsCopy with the targets on the root
 process only

As documented, only the root process needs to have the input targets, but the
other processes also used (the length of) their own list.
---
 py/redrock/targets.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 9887d39..ff01f7f 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -550,7 +550,12 @@ class DistTargetsCopy(DistTargets):
         # Distribute the targets among process weighted by the amount of work
         # to do for each target.
 
-        self._proc_targets = distribute_targets(targets, comm_size)
+        self._proc_targets = None
+        if comm_rank == root:
+            self._proc_targets = distribute_targets(targets, comm_size)
+
+        if comm is not None:
+            self._proc_targets = comm.bcast(self._proc_targets, root=root)
 
         self._my_targets = self._proc_targets[comm_rank]
 
@@ -563,7 +568,8 @@ class DistTargetsCopy(DistTargets):
             self._my_data = [ tbuf[x] for x in self._my_targets ]
         else:
             tbuf = dict()
-            for tg in targets:
+            for i in range(len(self._alltargetids)):
+                tg = targets[i] if comm_rank == root else None
                 recv = comm.bcast(tg, root=root)
                 if recv.id in self._my_targets:
                     tbuf[recv.id] = recv
-- 
2.43.0


From a15dcc87e7ab9828d7ae7312cce2d7d24d1e7871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:31 +0000
Subject: [PATCH 10/75] fix: re-using a chi2 scan in an MPI run

Every process read the scans of all targets and returned them all to the root
process, where those without refinement replaced the refined ones (KeyError: zfit).
---
 py/redrock/zfind.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index 7d42055..111924f 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -291,6 +291,9 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
         results = calc_zchi2_targets(targets, templates, mp_procs=mp_procs, use_gpu=use_gpu)
     else:
         results = read_zscan_redrock(chi2_scan)
+        # Every MPI process keeps its local targets only; the others would
+        # replace those of the process which refines them
+        results = { tid : results[tid] for tid in targets.local_target_ids() }
     elapsed(start_zscan, "Scanning redshifts", comm=targets.comm)
 
     if (use_gpu):
-- 
2.43.0


From 54f4b622990294ff2dc364e2914541349555f1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 11/75] fix: mean gradient of cosmic ray rejection is per pixel

It was divided by the sum of the weights of all pixels, so that it was always
about zero and real features present in all exposures were masked as cosmics.
---
 py/redrock/targets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index ff01f7f..3838e04 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -339,7 +339,7 @@ class Target(object):
                 grad=np.array(grad)
                 gradivar=1/np.array(gradvar)
                 nspec=grad.shape[0]
-                meangrad=np.sum(gradivar*grad,axis=0)/np.sum(gradivar)
+                meangrad=np.sum(gradivar*grad,axis=0)/np.sum(gradivar,axis=0)
                 deltagrad=grad-meangrad
                 chi2=np.sum(gradivar*deltagrad**2,axis=0)/(nspec-1)
 
-- 
2.43.0


From 886c437fd96e426d88b1d4012d728dede30c9a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 12/75] fix: coadd the resolution with the weights of the
 coadded flux

Pixels rejected as cosmics kept their weight in the numerator of the coadded
resolution matrix but not in its denominator.
---
 py/redrock/targets.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 3838e04..37c89f3 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -291,6 +291,7 @@ class Target(object):
             nspec = 0
             flux=[] # references
             ivar=[] # references
+            Rdata=[] # references
             grad=[] # gradients, copy
             gradvar=[]
             for s in self.spectra:
@@ -299,11 +300,10 @@ class Target(object):
                 current_band = s.band
                 if wave is None :
                     wave = s.wave
-                    Rdiags = s.R.data * s.ivar
                     offsets = s.R.offsets
                 else :
                     assert len(s.wave) == len(wave)
-                    Rdiags += s.R.data * s.ivar
+                Rdata.append(s.R.data)
                 flux.append(s.flux)
                 ivar.append(s.ivar)
 
@@ -353,6 +353,10 @@ class Target(object):
             unweightedflux = np.sum(flux,axis=0)
             weights        = np.sum(ivar,axis=0)
             weightedflux   = np.sum(ivar*flux,axis=0)
+            # same weights as the flux, i.e. without rejected pixels
+            Rdiags = Rdata[0] * ivar[0]
+            for k in range(1, len(Rdata)):
+                Rdiags += Rdata[k] * ivar[k]
             isbad = (weights == 0)
             flux = weightedflux / (weights + isbad)
             flux[isbad] = unweightedflux[isbad] / nspec
-- 
2.43.0


From a8ada70ae05711dba9b80b924e2ee1837569af3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:14 +0000
Subject: [PATCH 13/75] fix: cosmic ray rejection with an entirely masked
 exposure

np.interp raised ValueError as there is no good pixel to interpolate.
---
 py/redrock/targets.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 37c89f3..6414f88 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -294,6 +294,7 @@ class Target(object):
             Rdata=[] # references
             grad=[] # gradients, copy
             gradvar=[]
+            gradspec=[] # index of the spectrum of each gradient
             for s in self.spectra:
                 if s.wavehash != key: continue
                 nspec += 1
@@ -307,7 +308,8 @@ class Target(object):
                 flux.append(s.flux)
                 ivar.append(s.ivar)
 
-                if cosmics_nsig > 0 :
+                # an entirely masked exposure cannot be compared to others
+                if cosmics_nsig > 0 and np.any(s.ivar>0) :
                     # interpolate over bad measurements
                     # to be able to compute gradient next
                     # to a bad pixel and identify oulier
@@ -330,6 +332,7 @@ class Target(object):
                     tflux[0]  = 0
                     grad.append(tflux)
                     gradvar.append(tvar)
+                    gradspec.append(nspec-1)
 
             flux=np.array(flux)
             ivar=np.array(ivar)
@@ -338,17 +341,17 @@ class Target(object):
                 # detect outliers by comparing spectra
                 grad=np.array(grad)
                 gradivar=1/np.array(gradvar)
-                nspec=grad.shape[0]
+                ngrad=grad.shape[0]
                 meangrad=np.sum(gradivar*grad,axis=0)/np.sum(gradivar,axis=0)
                 deltagrad=grad-meangrad
-                chi2=np.sum(gradivar*deltagrad**2,axis=0)/(nspec-1)
+                chi2=np.sum(gradivar*deltagrad**2,axis=0)/(ngrad-1)
 
                 jj=np.where(chi2>cosmics_nsig**2)[0]
                 for j in jj :
                     k=np.argmax(gradivar[:,j]*deltagrad[:,j]**2)
                     #k=np.argmax(flux[:,j])
                     #print("masking spec",k,"wave=",wave[j],"flux=",flux[k,j])
-                    ivar[k][j]=0.
+                    ivar[gradspec[k]][j]=0.
 
             unweightedflux = np.sum(flux,axis=0)
             weights        = np.sum(ivar,axis=0)
-- 
2.43.0


From fe42f979472128687bfd50dc4b6c082bff82cdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:54 +0000
Subject: [PATCH 14/75] fix: DESI targets selected by ID in the order of the
 file, as the fibermap

---
 py/redrock/external/desi.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index e319478..b6ef3e3 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -348,7 +348,9 @@ class DistTargetsDESI(DistTargets):
             if targetids is None:
                 keep_targetids = coadd_fmap["TARGETID"]
             else:
-                keep_targetids = targetids
+                # requested targets in this file, in the order of this file
+                keep_targetids = coadd_fmap["TARGETID"]
+                keep_targetids = keep_targetids[np.isin(keep_targetids, targetids)]
 
             # Select a subset of the target range from each file if desired.
 
-- 
2.43.0


From cf896cc2b493400bae15f881721423c2b527891a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:54 +0000
Subject: [PATCH 15/75] fix: DESI reader with a first target but no number of
 targets

---
 py/redrock/external/desi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index b6ef3e3..bfc4232 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -362,7 +362,7 @@ class DistTargetsDESI(DistTargets):
                     format(first_target))
 
             if n_target is None:
-                nkeep = len(keep_targetids)
+                nkeep = len(keep_targetids) - first_target
             else:
                 nkeep = n_target
 
-- 
2.43.0


From 19dda47c71e6649149703d3de15b4a16f54d13d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 16/75] fix: DESI spectra masks when only some of the files
 have them

---
 py/redrock/external/desi.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index bfc4232..2de2bba 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -593,6 +593,11 @@ class DistTargetsDESI(DistTargets):
                                     .ivar *= (hdata[trow] == 0)
                                 tspec_mask[t] += 1
                         toff += 1
+                else:
+                    # this file has no mask, but another one may have
+                    for t in self._my_targets:
+                        if t in self._target_specs[sfile]:
+                            tspec_mask[t] += len(self._target_specs[sfile][t])
 
                 extname = "{}_{}".format(b.upper(), "RESOLUTION")
                 hdata = None
-- 
2.43.0


From 8e2e7b05dd979e82de756d53f78abdc57ccd4d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:08 +0000
Subject: [PATCH 17/75] fix: rrdesi --model without --outfile

---
 py/redrock/external/desi.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index 2de2bba..129271f 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -1161,7 +1161,7 @@ def rrdesi(options=None, comm=None):
                 write_zscan(args.details, scandata, zfit, clobber=True)
             stop = elapsed(start, "Writing zscan data took", comm=comm)
 
-        if args.outfile:
+        if args.outfile or args.model:
             start = elapsed(None, "", comm=comm)
             if comm_rank == 0:
                 zbest = zfit[zfit['znum'] == 0]
@@ -1191,11 +1191,12 @@ def rrdesi(options=None, comm=None):
                 subtype_len = max(3, max_subtype_len)
                 zbest['SUBTYPE'] = zbest['SUBTYPE'].astype(f'U{subtype_len}')
 
-                write_zbest(args.outfile, zbest,
-                        targets.fibermap, targets.exp_fibermap,
-                        targets.tsnr2,
-                        templates, archetypes=archetypes,
-                        spec_header=targets.header0, secondary_headers=targets.secondary_headers)
+                if args.outfile:
+                    write_zbest(args.outfile, zbest,
+                            targets.fibermap, targets.exp_fibermap,
+                            targets.tsnr2,
+                            templates, archetypes=archetypes,
+                            spec_header=targets.header0, secondary_headers=targets.secondary_headers)
 
             if comm is not None:
                 zbest = comm.bcast(zbest, root=0)
-- 
2.43.0


From 7558bf3cec55dcbe01888426d7c1bb873dd08776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 18/75] fix: output keywords are those of the first input file

---
 py/redrock/external/desi.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index 129271f..c200c0d 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -299,13 +299,13 @@ class DistTargetsDESI(DistTargets):
                     input_coadded = True
                     coadd_fmap = encode_table(Table(hdus["FIBERMAP"].data,
                         copy=True).as_array())
-                    self.secondary_headers["FIBERMAP"] = hdus["FIBERMAP"].header.copy()
+                    self.secondary_headers.setdefault("FIBERMAP", hdus["FIBERMAP"].header.copy())
                     exp_fmap = encode_table(Table(hdus["EXP_FIBERMAP"].data,
                         copy=True).as_array())
-                    self.secondary_headers["EXP_FIBERMAP"] = hdus["EXP_FIBERMAP"].header.copy()
+                    self.secondary_headers.setdefault("EXP_FIBERMAP", hdus["EXP_FIBERMAP"].header.copy())
                     tsnr2 = encode_table(Table(hdus["SCORES"].data,
                         copy=True).as_array())
-                    self.secondary_headers["SCORES"] = hdus["SCORES"].header.copy()
+                    self.secondary_headers.setdefault("SCORES", hdus["SCORES"].header.copy())
                     for col in tsnr2.colnames.copy():
                         if col == 'TARGETID' or col.startswith('TSNR2_'):
                             continue
@@ -315,7 +315,7 @@ class DistTargetsDESI(DistTargets):
                     input_coadded = False
                     tmpfmap = encode_table(Table(hdus["FIBERMAP"].data,
                         copy=True).as_array())
-                    self.secondary_headers["FIBERMAP"] = hdus["FIBERMAP"].header.copy()
+                    self.secondary_headers.setdefault("FIBERMAP", hdus["FIBERMAP"].header.copy())
                     assert 'COADD_NUMEXP' not in tmpfmap.dtype.names
 
                     if np.all(tmpfmap['TILEID'] == tmpfmap['TILEID'][0]):
@@ -327,7 +327,7 @@ class DistTargetsDESI(DistTargets):
 
                     scores = encode_table(Table(hdus["SCORES"].data,
                         copy=True).as_array())
-                    self.secondary_headers["SCORES"] = hdus["SCORES"].header.copy()
+                    self.secondary_headers.setdefault("SCORES", hdus["SCORES"].header.copy())
                     tsnr2 = Table(compute_coadd_tsnr_scores(scores)[0])
 
                     #- we later rely upon exp_fmap having same order as the
-- 
2.43.0


From e306c84d9037f80edba5cb1f549a5e68b918a235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 19/75] fix: reading details of rows whose type was not scanned

---
 py/redrock/results.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/redrock/results.py b/py/redrock/results.py
index 151d6cd..6e043fb 100644
--- a/py/redrock/results.py
+++ b/py/redrock/results.py
@@ -171,7 +171,9 @@ def read_zscan(filename, select_targetids=None, upper=False, nozfit=False):
             spectype = zfit_tid[spectype_col][0]
             subtype = zfit_tid[subtype_col][0]
             fulltype = make_fulltype(spectype, subtype)
-            zscan[targetid][fulltype]['zfit'] = zfit_tid
+            # archetypes and fits without data may be of a type that was not scanned
+            if fulltype in zscan[targetid]:
+                zscan[targetid][fulltype]['zfit'] = zfit_tid
 
         return zscan, zfit
 
-- 
2.43.0


From 07f4232ff9fe2f8c68f39ead9ba7d068a2003f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:10 +0000
Subject: [PATCH 20/75] fix: eval_model without resolution

---
 py/redrock/templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/templates.py b/py/redrock/templates.py
index 4a62f09..e811d20 100644
--- a/py/redrock/templates.py
+++ b/py/redrock/templates.py
@@ -838,7 +838,7 @@ def eval_model(data, wave, R=None, templates=None):
         tx = templates[(data['SPECTYPE'][i], data['SUBTYPE'][i])]
         coeff = data['COEFF'][i][0:tx.nbasis]
         z = data['Z'][i]
-        models[i] = tx.eval(coeff, wave, z, R=R[i])
+        models[i] = tx.eval(coeff, wave, z, R=None if R is None else R[i])
 
     return models
 
-- 
2.43.0


From 36e459ae716ac2be58b96e7eeae6bca974ce3138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:24 +0000
Subject: [PATCH 21/75] fix: BOSS target ID from fibers of less than 64 bits

---
 py/redrock/external/boss.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 6e215aa..dff315c 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -39,6 +39,8 @@ from ..archetypes import All_archetypes
 
 
 def platemjdfiber2targetid(plate, mjd, fiber):
+    # 64-bit, also if plate, mjd or fiber are smaller integers read from a file
+    plate, mjd = np.int64(plate), np.int64(mjd)
     return plate*1000000000 + mjd*10000 + fiber
 
 
-- 
2.43.0


From f85bf5b94901f07d888ead5a6caad16150d2df5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:33 +0000
Subject: [PATCH 22/75] fix: BOSS BRICKNAME lost the last digits of the MJD

---
 py/redrock/external/boss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index dff315c..8001fd8 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -266,7 +266,7 @@ def read_spectra(spplates_name, targetids=None, use_frames=False,
         # will end up as extra columns in the output ZBEST HDU.
         tmeta = dict()
         tmeta["BRICKNAME"] = bricknames[targetid]
-        tmeta["BRICKNAME_datatype"] = "S8"
+        tmeta["BRICKNAME_datatype"] = "S12"
         if len(spectra) > 0:
             targets.append(Target(targetid, spectra, coadd=coadd, meta=tmeta))
         else:
@@ -281,7 +281,7 @@ def read_spectra(spplates_name, targetids=None, use_frames=False,
 
     metatable = Table()
     metatable['TARGETID'] = targetids
-    bx = np.array([bricknames[t] for t in targetids], dtype='S8')
+    bx = np.array([bricknames[t] for t in targetids], dtype='S12')
     metatable['BRICKNAME'] = bx
 
     # metatable = Table(names=("TARGETID", "BRICKNAME"), dtype=("i8", "S8",))
-- 
2.43.0


From 5c3779149413d97fe174bcb09672ebc652bc4551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:47 +0000
Subject: [PATCH 23/75] fix: BOSS reader with requested targets that are not in
 the files or repeated

---
 py/redrock/external/boss.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 8001fd8..3b85d27 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -254,10 +254,13 @@ def read_spectra(spplates_name, targetids=None, use_frames=False,
         h.close()
         print("DEBUG: read {} ".format(infile))
 
-    if targetids == None:
+    if targetids is None:
         targetids = sorted(list(dic_spectra.keys()))
     else:
-        targetids = sorted(targetids)
+        for t in targetids:
+            if t not in dic_spectra:
+                print("WARNING: Target {} is not in the input files".format(t))
+        targetids = sorted(t for t in dic_spectra if t in targetids)
 
     targets = []
     for targetid in targetids:
-- 
2.43.0


From cfa4f449e9c90b269d6b416e1b7bd4234a49230c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:58 +0000
Subject: [PATCH 24/75] fix: BOSS reader with a list of fibers (np.in1d is
 gone)

---
 py/redrock/external/boss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 3b85d27..bcd96ca 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -168,7 +168,7 @@ def read_spectra(spplates_name, targetids=None, use_frames=False,
             assert plate == h[0].read_header()["PLATEID"]
         fs = h[5]["FIBERID"][:]
         if fiberid is not None:
-            w = np.in1d(fs,fiberid)
+            w = np.isin(fs,fiberid)
             fs = fs[w]
 
         fl = h[0].read()
-- 
2.43.0


From 98478bc6a68845c84ef2dc49f132cab64444340f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:12 +0000
Subject: [PATCH 25/75] fix: BOSS frames of a plate without exposures in one
 camera

---
 py/redrock/external/boss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index bcd96ca..4e3a8e1 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -130,7 +130,7 @@ def read_spectra(spplates_name, targetids=None, use_frames=False,
             for c in cameras:
                 try:
                     nexp = spplate[0].read_header()["NEXP_{}".format(c.upper())]
-                except ValueError:
+                except (KeyError, ValueError):
                     print("DEBUG: spplate {} has no exposures in camera {} ".format(spplate_name,c))
                     continue
                 for i in range(1,nexp+1):
-- 
2.43.0


From b81001e1a3c0878b8e7165220b90b185d9034194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 26/75] fix: rrboss goes on without an output or with
 contradicting selections

---
 py/redrock/external/boss.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 4e3a8e1..f4fddaf 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -393,6 +393,8 @@ def rrboss(options=None, comm=None):
             sys.stdout.flush()
             if comm is not None:
                 comm.Abort()
+            else:
+                sys.exit(1)
 
         if (args.targetids is not None) and ((args.mintarget is not None) \
             or (args.ntargets is not None)):
@@ -400,6 +402,8 @@ def rrboss(options=None, comm=None):
             sys.stdout.flush()
             if comm is not None:
                 comm.Abort()
+            else:
+                sys.exit(1)
 
     targetids = None
     if args.targetids is not None:
-- 
2.43.0


From 26b1d18b738f248d844ac21a17fdbd5db97b72f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 27/75] fix: rrboss ignored --mintarget without --ntargets

---
 py/redrock/external/boss.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index f4fddaf..f74a847 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -458,9 +458,12 @@ def rrboss(options=None, comm=None):
             use_frames=args.use_frames, coadd=(not args.allspec),
             cache_Rcsr=True, use_andmask=args.use_andmask)
 
-        if args.ntargets is not None:
-            targets = targets[first_target:first_target+n_targets]
-            meta = meta[first_target:first_target+n_targets]
+        if first_target is not None:
+            last_target = None
+            if n_targets is not None:
+                last_target = first_target + n_targets
+            targets = targets[first_target:last_target]
+            meta = meta[first_target:last_target]
 
         stop = elapsed(start, "Read of {} targets"\
             .format(len(targets)), comm=comm)
-- 
2.43.0


From b6bc1acb7e15115065dbdb3bd671aa51dd980642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:40 +0000
Subject: [PATCH 28/75] fix: template path given as a pathlib.Path

---
 py/redrock/templates.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/py/redrock/templates.py b/py/redrock/templates.py
index e811d20..a78e9fb 100644
--- a/py/redrock/templates.py
+++ b/py/redrock/templates.py
@@ -12,7 +12,6 @@ from glob import glob
 import os
 import traceback
 import importlib
-import pathlib
 
 import numpy as np
 from astropy.io import fits
@@ -326,7 +325,9 @@ def find_templates(template_path=None):
     Returns list of template files to use
     """
     template_path = get_template_dir(template_path)
-    if isinstance(template_path, (str, pathlib.PosixPath)) and not os.path.exists(template_path):
+    if isinstance(template_path, os.PathLike):
+        template_path = os.fspath(template_path)
+    if isinstance(template_path, str) and not os.path.exists(template_path):
         raise ValueError("ERROR: can't find template_path, $RR_TEMPLATE_DIR, or (rrcode)/data/templates/")
     else:
         print(f'DEBUG: Reading templates from {template_path}')
@@ -458,7 +459,7 @@ def load_templates(template_path=None, zscan_galaxy=None, zscan_star=None, zscan
     Note: this always returns a list/dict, even if template_path is a path to a
     single template file.
     """
-    if isinstance(template_path, (str, type(None))):
+    if isinstance(template_path, (str, os.PathLike, type(None))):
         template_path = find_templates(template_path)
 
     print(f'Reading templates from {template_path}')
-- 
2.43.0


From 145fb908385b4b1a1301499afc18b87fb674d4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:40 +0000
Subject: [PATCH 29/75] fix: archetype fits without a prior
 (--archetypes-no-legendre)

---
 py/redrock/fitz.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/py/redrock/fitz.py b/py/redrock/fitz.py
index af84e02..9ccf178 100644
--- a/py/redrock/fitz.py
+++ b/py/redrock/fitz.py
@@ -331,11 +331,11 @@ def fitz(zchi2, redshifts, target, template, nminima=3, archetype=None, use_gpu=
                 chi2=chi2min, zz=zz, zzchi2=zzchi2,
                 coeff=coeff, fitmethod=template.method))
         else:
+            if per_camera:
+                ncamera = len(list(dwave.keys())) # number of cameras, for e.g. DESI has three cameras
+            else:
+                ncamera = 1
             if prior_sigma is not None:
-                if per_camera:
-                    ncamera = len(list(dwave.keys())) # number of cameras, for e.g. DESI has three cameras
-                else:
-                    ncamera = 1
                 if n_nearest is None:
                     prior = prior_on_coeffs(1, deg_legendre, prior_sigma, ncamera)
                 else:
-- 
2.43.0


From c0fb4328e4bfbd84b4e4ebe1e1a5074b98f4dd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:48 +0000
Subject: [PATCH 30/75] fix: per-camera archetype fits of several exposures or
 of spectra without band names

---
 py/redrock/zscan.py | 32 +++++---------------------------
 1 file changed, 5 insertions(+), 27 deletions(-)

diff --git a/py/redrock/zscan.py b/py/redrock/zscan.py
index 6a23f47..4ed439c 100644
--- a/py/redrock/zscan.py
+++ b/py/redrock/zscan.py
@@ -262,7 +262,7 @@ def per_camera_coeff_with_least_square_batch(target, tdata, weights, flux, wflux
         n_nbh (int): number of nearest best archetypes
         prior (array): prior matrix added to the Legendre coefficients (1/sigma^2)
         use_gpu (bool): use GPU or not
-        bands (list): list of wavelength bands
+        bands (list): list of wavelength bands (unused)
     
     Returns:
         coefficients and chi2
@@ -272,17 +272,9 @@ def per_camera_coeff_with_least_square_batch(target, tdata, weights, flux, wflux
     ### TODO - implement BVLS on GPU
     # number of cameras in DESI: b, r, z
     spectra = target.spectra
-    ncam = len(bands)
+    ncam = len(tdata) # not len(bands), which repeats bands for several exposures
     nbasis = n_nbh+nleg*ncam # n_nbh : for actual physical archetype(s), nleg: number of legendre polynomials, ncamera: number of cameras
 
-    ret_zcoeff = {}
-    ret_zcoeff['alpha'] = []
-    if nleg>0:
-        for b in bands: # bands as save in targets object
-            ret_zcoeff[b] = []
-
-    new_bands = sorted(bands) # saves as correct order
-
     #Setup dict of solver args to pass bounds to solver
     method = method.upper()
     solver_args = dict()
@@ -328,24 +320,10 @@ def per_camera_coeff_with_least_square_batch(target, tdata, weights, flux, wflux
             zzchi2[j] = tmp_zzchi2[0]
             zzcoeff[j] = tmp_zcoeff[0]
 
-    # saving leading archetype coefficients in correct order
-    ret_zcoeff['alpha'] = [zzcoeff[:,k] for k in range(n_nbh)] # archetype coefficient(s)
-    # logic in case nearest neighbour is used
-    if n_nbh>1:
-        ret_zcoeff['alpha'] = np.array([ret_zcoeff['alpha'][jj][0] for jj in range(n_nbh)])[None,:]
-    else:
-        ret_zcoeff['alpha'] = ret_zcoeff['alpha'][0][:,None]
-    if nleg>=1:
-        split_coeff =  np.split(zzcoeff[:,n_nbh:], ncam, axis=1) # n_camera = 3
-        # In target spectra redrock saves values as 'b', 'z', 'r'.
-        # So just re-ordering them here to 'b', 'r', 'z' for easier reading
-        old_coeff = {band: split_coeff[i] for i, band in enumerate(bands)}
-
-        for band in new_bands:# 3 cameras
-            ret_zcoeff[band] = old_coeff[band]
-    coeff = np.concatenate(list(ret_zcoeff.values()), axis=1)
+    # coefficients are those of the archetype(s), then those of every camera
+    # in the order of the wavelength grids of the target's spectra
     #print(f'{time.time()-start} [sec] took for per camera BVLS method\n')
-    return zzchi2, coeff
+    return zzchi2, zzcoeff
 
 def batch_dot_product_sparse(spectra, tdata, nz, use_gpu):
     """Calculate a batch dot product of the 3 sparse matrices in spectra
-- 
2.43.0


From 0453a4ce897d44deaf03a0d4d92d19d4532c3552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:48 +0000
Subject: [PATCH 31/75] fix: nearest archetypes without a prior

---
 py/redrock/archetypes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py/redrock/archetypes.py b/py/redrock/archetypes.py
index dae679a..88fb1fd 100644
--- a/py/redrock/archetypes.py
+++ b/py/redrock/archetypes.py
@@ -362,8 +362,9 @@ class Archetype():
         # this logic is needed because the first fitting is done with just one archetype
         #and then nearest neighbour approach is implemented
         if n_nearest is not None:
-            nnearest_prior = prior.copy() # prior corresponding to nearest_nbh method
-            prior = prior[n_nearest-1:,][:,n_nearest-1:] # removing first rows/columns corresponding to the nearest_archetypes, and keeping just one row for one archetype
+            nnearest_prior = prior # prior corresponding to nearest_nbh method
+            if prior is not None:
+                prior = prior[n_nearest-1:,][:,n_nearest-1:] # removing first rows/columns corresponding to the nearest_archetypes, and keeping just one row for one archetype
 
         for hs, wave in dwave.items():
             if (trans[hs] is not None):
-- 
2.43.0


From e076ad325c4eebd2841ca329ac254ae97c5bbdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:03 +0000
Subject: [PATCH 32/75] fix: nearest archetypes with common Legendre terms

---
 py/redrock/archetypes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py/redrock/archetypes.py b/py/redrock/archetypes.py
index 88fb1fd..f141729 100644
--- a/py/redrock/archetypes.py
+++ b/py/redrock/archetypes.py
@@ -284,7 +284,10 @@ class Archetype():
             (zzchi2, zzcoeff) = per_camera_coeff_with_least_square_batch(target, tdata, weights, flux, wflux, nleg, 1, method='bvls', n_nbh=n_nearest, prior=prior, use_gpu=False, bands=target.bands)
         else:
             #Use CPU mode for calc_zchi2 since small tdata
-            (zzchi2, zzcoeff) = calc_zchi2_batch(spectra, tdata, weights, flux, wflux, 1, nbasis, use_gpu=False)
+            bounds = np.zeros((2, nbasis))
+            bounds[0][len(iBest):] = -np.inf # archetypes must have lower bound 0, Legendre terms have none
+            bounds[1] = np.inf
+            (zzchi2, zzcoeff) = calc_zchi2_batch(spectra, tdata, weights, flux, wflux, 1, nbasis, use_gpu=False, solve_matrices_algorithm='BVLS', solver_args={'bounds':bounds})
 
         sstype = ['%s'%(self._subtype[k]) for k in iBest] # subtypes of best archetypes
         fsstype = ';'.join(sstype)
-- 
2.43.0


From 36917617f5a4df38783aa3145c3f5efc2553e63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:00 +0000
Subject: [PATCH 33/75] fix: model of an archetype fit with Legendre terms only

---
 py/redrock/targets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 6414f88..208dae4 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -212,7 +212,7 @@ class Target(object):
         fitmethod = bestfit['FITMETHOD']
 
         self.model = dict()
-        if np.all(coeff == 0.0):
+        if np.all(coeff == 0.0) and not (fitmethod == 'ARCH' and np.any(bestfit["LEGCOEFF"] != 0.0)):
             # entirely masked data has coeffs=0
             for sp in self.spectra:
                 self.model[sp.wavehash] = np.zeros(len(sp.wave), dtype=np.float32)
-- 
2.43.0


From 7edf1eca96a650544e194f234a2a8bab7b2e8d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:00 +0000
Subject: [PATCH 34/75] fix: more nearest archetypes asked for than there are

---
 py/redrock/fitz.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/redrock/fitz.py b/py/redrock/fitz.py
index 9ccf178..a225f12 100644
--- a/py/redrock/fitz.py
+++ b/py/redrock/fitz.py
@@ -182,6 +182,8 @@ def fitz(zchi2, redshifts, target, template, nminima=3, archetype=None, use_gpu=
     if not archetype is None:
         #legendre = legendre_calculate(deg_legendre, dwave=dwave)
         legendre = target.legendre(deg_legendre)
+        if n_nearest is not None:
+            n_nearest = min(n_nearest, archetype._narch) # there may be fewer archetypes
 
     results = list()
     #Moved default nz to arg list
-- 
2.43.0


From 0f0b5d222d230317a8d601b3628a9f3b158d645e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:20 +0000
Subject: [PATCH 35/75] fix: model of a per-camera archetype fit of several
 exposures

---
 py/redrock/targets.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 208dae4..3479bf2 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -220,11 +220,13 @@ class Target(object):
             #- Archetype fits have N nearest neighbor archetype coeffs saved in COEFF keyword
             narchetypes = len(subtype.split(';'))
             archcoeff, legcoeff = coeff[0:narchetypes], bestfit["LEGCOEFF"]
+            # Legendre terms are per camera (in order of the wavelength grids) or common
+            cameras = list(dict.fromkeys(sp.wavehash for sp in self.spectra))
             if legcoeff.ndim==1:
-                legcoeff = [legcoeff for i in range(len(self.spectra))]
+                legcoeff = [legcoeff for i in range(len(cameras))]
             ax = archetypes[spectype]
-            for i, sp in enumerate(self.spectra):
-                self.model[sp.wavehash] = ax.eval(subtype, archcoeff, sp.wave, z, R=sp.Rcsr, legcoeff=legcoeff[i])
+            for sp in self.spectra:
+                self.model[sp.wavehash] = ax.eval(subtype, archcoeff, sp.wave, z, R=sp.Rcsr, legcoeff=legcoeff[cameras.index(sp.wavehash)])
 
         else:
             tx = templates[(spectype, subtype)]
-- 
2.43.0


From 65006f164cac6a7450b9552ea3cd0b5bcc3fb33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:38 +0000
Subject: [PATCH 36/75] fix: archetypes were fitted with the IGM model of the
 template but evaluated with their own

---
 py/redrock/fitz.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/redrock/fitz.py b/py/redrock/fitz.py
index a225f12..398afd2 100644
--- a/py/redrock/fitz.py
+++ b/py/redrock/fitz.py
@@ -344,6 +344,8 @@ def fitz(zchi2, redshifts, target, template, nminima=3, archetype=None, use_gpu=
                     prior = prior_on_coeffs(n_nearest, deg_legendre, prior_sigma, ncamera)
             else:
                 prior=None
+            if archetype.igm_model != template.igm_model:
+                trans = None # let the archetypes use the IGM model they are evaluated with
             chi2min, coeff, fulltype = archetype.get_best_archetype(target,weights,flux,wflux,dwave,zbest, per_camera, n_nearest, trans=trans, use_gpu=use_gpu, prior=prior)
             del trans
             subtype = parse_fulltype(fulltype)[1]
-- 
2.43.0


From 93ed3ae149f127e9b7525af846d7877aad13cffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:21 +0000
Subject: [PATCH 37/75] fix: tables of fits with archetypes for some of the
 types, or with different numbers of coefficients

---
 py/redrock/zfind.py | 48 +++++++++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index 111924f..84a31d6 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -468,6 +468,12 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
         # for t in templates:
         #     ft = t.template.full_type
 
+        if archetypes:
+            #- largest shape of the Legendre coefficients of any archetype fit
+            legshape = [ p['zfit']['legcoeff'].shape[1:] for x in allresults.values()
+                for k, p in x.items() if k != 'meta' and 'legcoeff' in p['zfit'] ]
+            legshape = tuple(int(n) for n in np.max(legshape, axis=0)) if len(legshape) > 0 else (0,)
+
         allzfit = list()
         for tid in targets.all_target_ids:
             tzfit = list()
@@ -521,10 +527,11 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
                 del allresults[tid][fulltype]['zfit']
 
             maxncoeff = max([tmp['coeff'].shape[1] for tmp in tzfit])
-            if archetypes is None:
-                #- same width for all targets, even those without any minima
-                #- for the template with the most coefficients (e.g. priors)
-                maxncoeff = max([maxncoeff] + [t.template.nbasis for t in templates])
+            #- same width for all targets, even those without any minima
+            #- for the template with the most coefficients (e.g. priors)
+            maxncoeff = max([maxncoeff] + [t.template.nbasis for t in templates])
+            if archetypes and n_nearest is not None:
+                maxncoeff = max(maxncoeff, n_nearest)
 
             for tmp in tzfit:
                 if tmp['coeff'].shape[1] < maxncoeff:
@@ -535,27 +542,22 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
             #tzfit = astropy.table.vstack(tzfit)
             ## Equivalent of astropy.table.vstack(tzfit) - vstack each array
 
+            if archetypes:
+                #- fits with and without archetypes have the same columns
+                for tmp in tzfit:
+                    nx = len(tmp['chi2'])
+                    if 'legcoeff' not in tmp:
+                        tmp['legcoeff'] = np.zeros((nx,) + legshape)
+                        for k in pca_map:
+                            tmp[k] = tmp[pca_map[k]]
+                    for k, shape in [('legcoeff', legshape), ('pca_coeff', (maxncoeff,))]:
+                        pad = [(0, n - m) for n, m in zip((nx,) + shape, tmp[k].shape)]
+                        tmp[k] = np.pad(tmp[k], pad)
+
             tzfit2 = dict()
             for k in tzfit[0].keys():
-                tzfit2[k] = list()
-                ref = tzfit[0][k]  # reference array
-                for i in range(len(tzfit)):
-                    if k in tzfit[i].keys():
-                        val = tzfit[i][k]
-                        if archetypes and k in pca_map:
-                            # this is to make sure in case of archetypes for multiple spectype we have uniform size for arrays
-                            val = np.pad(val, ((0,0),(0, max(0, ref.shape[1] - val.shape[1]))), constant_values=0)[:, :ref.shape[1]]
-                    else:
-                        row = tzfit[i]
-                        if archetypes and k in pca_map and pca_map[k] in row:
-                            val = row[pca_map[k]]
-                            val = np.pad(val, ((0,0),(0, max(0, ref.shape[1] - val.shape[1]))), constant_values=0)[:, :ref.shape[1]]
-                        elif k in zero_like_keys:
-                            val = np.zeros_like(ref)
-                    tzfit2[k].append(val)
-
-                tzfit2[k] = np.vstack(tzfit2[k])
-                if (k != 'coeff') and (tzfit2[k].shape[1] == 1):
+                tzfit2[k] = np.vstack([tmp[k] for tmp in tzfit])
+                if (k not in ('coeff', 'legcoeff', 'pca_coeff')) and (tzfit2[k].shape[1] == 1):
                     tzfit2[k] = tzfit2[k].flatten()
             tzfit = tzfit2
 
-- 
2.43.0


From 094c5f5e0bb08aa03a221c9188eed545833eba3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:21 +0000
Subject: [PATCH 38/75] fix: more nearest archetypes than template coefficients

---
 py/redrock/zfind.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index 84a31d6..9adc288 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -707,6 +707,7 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
         else:
             ntarg, ncoeff = allzfit['coeff'].shape
 
+        maxcoeff = max(maxcoeff, ncoeff) # e.g. more nearest archetypes than template coefficients
         if ncoeff != maxcoeff:
             coeff = np.zeros((ntarg, maxcoeff), dtype=allzfit['coeff'].dtype)
             coeff[:,0:ncoeff] = allzfit['coeff']
-- 
2.43.0


From 2e841961ec25b8e1b04817fa8717d55a294f726f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:33 +0000
Subject: [PATCH 39/75] fix: NEGATIVE_MODEL of template fits when archetypes of
 other types were given

---
 py/redrock/zfind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index 9adc288..7db0fab 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -567,7 +567,7 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
             tzfit['targetid'] = np.array([tid]*l)
 
             if (archetypes):
-                if (len(archetype_spectype)==len(all_spectype)):
+                if set(all_spectype).issubset(archetype_spectype):
                     if n_nearest is None:
                         if tzfit["coeff"].ndim==1: ## this makes sure that code doesn't fail if --archetypes-no-legendre is provided
                             tzfit["coeff"] = tzfit["coeff"].reshape(-1, 1)
-- 
2.43.0


From 2ec04f458795e8ef6b7bc4ec10d35aaa06cb41c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:50 +0000
Subject: [PATCH 40/75] fix: details files of archetype fits without Legendre
 terms

---
 py/redrock/results.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/redrock/results.py b/py/redrock/results.py
index 6e043fb..0dc6b35 100644
--- a/py/redrock/results.py
+++ b/py/redrock/results.py
@@ -61,6 +61,9 @@ def write_zscan(filename, zscan, zfit, clobber=False):
     zfit['znum'] = zfit['znum'].astype(np.int8)
     zfit['ncoeff'] = zfit['ncoeff'].astype(np.int8)
 
+    # HDF5 has no columns of zero width, e.g. legcoeff without Legendre terms
+    zfit.remove_columns([col for col in zfit.colnames if 0 in zfit[col].shape[1:]])
+
     zbest = zfit[zfit['znum'] == 0]
     zbest.remove_column('znum')
 
-- 
2.43.0


From a325332dd301c5cd7d7669549e33922a2bb78d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:50 +0000
Subject: [PATCH 41/75] fix: rrboss --archetypes passed the path to zfind
 instead of the archetypes

---
 py/redrock/external/boss.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index f74a847..edc5f42 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -490,9 +490,14 @@ def rrboss(options=None, comm=None):
 
         start = elapsed(None, "", comm=comm)
 
+        archetypes = None
+        if not args.archetypes is None:
+            archetypes = All_archetypes(archetypes_dir=args.archetypes).archetypes
+
         scandata, zfit = zfind(dtargets, dtemplates, mpprocs,
-            nminima=args.nminima, archetypes=args.archetypes,
-            priors=args.priors, chi2_scan=args.chi2_scan)
+            nminima=args.nminima, archetypes=archetypes,
+            priors=args.priors, chi2_scan=args.chi2_scan,
+            per_camera=False, deg_legendre=0)
 
         stop = elapsed(start, "Computing redshifts took", comm=comm)
 
-- 
2.43.0


From 878dfd53eae2b3516f5c04597eca19ee25ca8156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:32 +0000
Subject: [PATCH 42/75] fix: archetype file names without a hyphen

---
 py/redrock/external/desi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index c200c0d..0d42dfe 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -898,7 +898,7 @@ def rrdesi(options=None, comm=None):
 
                 if os.path.isfile(args.archetypes):
                     print('Archetype is a file and it exists and readable')
-                    print('Archetype will only be applied to SPECTYPE %s'%(os.path.basename(args.archetypes).split('-')[1].split('.')[0].upper()))
+                    print('Archetype will only be applied to SPECTYPE {}'.format(Archetype(args.archetypes)._rrtype))
             else:
                 print("ERROR: can't find archetypes_dir or it is unreadable")
                 sys.stdout.flush()
-- 
2.43.0


From 62cd3b7c7383988260c01f130d6e54b4e2c3d90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:32 +0000
Subject: [PATCH 43/75] fix: archetype file given by a path with an environment
 variable

---
 py/redrock/archetypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/archetypes.py b/py/redrock/archetypes.py
index f141729..9c99875 100644
--- a/py/redrock/archetypes.py
+++ b/py/redrock/archetypes.py
@@ -473,7 +473,7 @@ def find_archetypes(archetypes_dir=None):
                 raise IOError("ERROR: can't find archetypes_dir, $RR_ARCHETYPE_DIR, or {rrcode}/archetypes/")
         lstfilename = sorted(glob(os.path.join(archetypes_dir, 'rrarchetype-*.fits')))
     else:
-        if os.path.isfile(archetypes_dir):
+        if os.path.isfile(os.path.expandvars(archetypes_dir)):
             lstfilename = [archetypes_dir]
         else:
             archetypes_dir_expand = os.path.expandvars(archetypes_dir)
-- 
2.43.0


From 19e48f89f74a6f7bd6e860558f9f95580eab4f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:30 +0000
Subject: [PATCH 44/75] fix: template types of more than 6 characters were cut
 off

---
 py/redrock/zfind.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index 7db0fab..c1bd40a 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -691,7 +691,9 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
             allzfit.replace_column('subtype', allzfit['subtype'].astype(dtype))
 
         if allzfit['spectype'].dtype != '<U6':
-            allzfit.replace_column('spectype',allzfit['spectype'].astype('<U6'))
+            # keep min of U6, without cutting off longer template types
+            max_length = max(6, max(len(s) for s in allzfit['spectype']))
+            allzfit.replace_column('spectype',allzfit['spectype'].astype(f'<U{max_length}'))
 
         if archetypes is None or not per_camera:
             maxcoeff = np.max([t.template.nbasis for t in templates])
-- 
2.43.0


From e55de2c69aef96e9c52473d8ea6190d8d9d001bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:43 +0000
Subject: [PATCH 45/75] fix: GPU rebinning read past the end of the template

With the last bin edge exactly at the end of the template, searchsorted
returns len(x), and the kernel read x and y there.
---
 py/redrock/rebin.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/redrock/rebin.py b/py/redrock/rebin.py
index 2e8ad35..1e9b4ef 100644
--- a/py/redrock/rebin.py
+++ b/py/redrock/rebin.py
@@ -432,6 +432,9 @@ def _trapz_rebin_batch_gpu(x, y, edges, myz, result_shape):
     #use serachsorted to find index for each boundary
     e2d = edges/(1+myz[:,None])
     idx = cp.searchsorted(x, e2d, side='right')#.astype(cp.int32)
+    #An edge at the very end (or, by rounding, start) of x belongs to the
+    #last (first) interval; the kernel reads x and y at idx-1 and idx
+    idx = cp.clip(idx, 1, len(x)-1)
 
     # Load CUDA kernel
     cp_module = cp.RawModule(code=cuda_source)
-- 
2.43.0


From ddaa555ec8d18fc5a548e963bd42b97c84070414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:37 +0000
Subject: [PATCH 46/75] fix: archetypes on a GPU were range checked in the rest
 frame

The wavelength edges of the spectra are compared with the range of the
archetypes at the redshift of the fit, as on the CPU: archetypes covering
the spectra only when redshifted were refused, and those not covering
them any more were read out of bounds.
---
 py/redrock/archetypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/redrock/archetypes.py b/py/redrock/archetypes.py
index 9c99875..295a2a0 100644
--- a/py/redrock/archetypes.py
+++ b/py/redrock/archetypes.py
@@ -142,8 +142,8 @@ class Archetype():
         """
         if (use_gpu):
             import cupy as cp
-            xmin = self.minwave
-            xmax = self.maxwave
+            xmin = self.minwave*(1.+z)
+            xmax = self.maxwave*(1.+z)
             wave = self.gpuwave
             flux = self.gpuflux
         else:
-- 
2.43.0


From b181c06cee5cf734edae688c685cef692a3a7295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:32 +0000
Subject: [PATCH 47/75] fix: archetypes without Legendre terms were scrambled
 on a GPU

The transposed, not contiguous array of archetypes was handed to a CUDA
kernel, which reads it in the order of memory.
---
 py/redrock/archetypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/redrock/archetypes.py b/py/redrock/archetypes.py
index 295a2a0..0e1f413 100644
--- a/py/redrock/archetypes.py
+++ b/py/redrock/archetypes.py
@@ -377,7 +377,8 @@ class Archetype():
             if nleg > 0:
                 tdata[hs] = arrtype.append(binned[hs].transpose()[:,:,None], arrtype.tile(arrtype.asarray(legendre[hs]).transpose()[None,:,:], (self._narch, 1, 1)), axis=2)
             else:
-                tdata[hs] = binned[hs].transpose()[:,:,None]
+                #The CUDA kernels need the archetypes one after another in memory
+                tdata[hs] = arrtype.ascontiguousarray(binned[hs].transpose()[:,:,None])
             nbasis = tdata[hs].shape[2]
 
         if per_camera:
-- 
2.43.0


From 62ff59cfd3b503832c670f937b46d1ae1af402a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:01 +0000
Subject: [PATCH 48/75] fix: singular fits on a GPU gave nan instead of a
 failed fit

As on the CPU they get HUGE_CHI2 and no coefficients; with nan no minimum
is found, and the target was missing from the results.
---
 py/redrock/zscan.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py/redrock/zscan.py b/py/redrock/zscan.py
index 4ed439c..a4ac0a5 100644
--- a/py/redrock/zscan.py
+++ b/py/redrock/zscan.py
@@ -714,6 +714,11 @@ def calc_zchi2_batch(spectra, tdata, weights, flux, wflux, nz, nbasis, solve_mat
         #Copy data from GPU to numpy arrays
         zcoeff = zcoeff.get()
 
+        #A singular matrix gives nan on the GPU rather than an error
+        failed = ~np.isfinite(zchi2)
+        zchi2[failed] = HUGE_CHI2
+        zcoeff[failed] = 0
+
         if (cp_memcheck):
             #Free memory on consumer grade GPUs with low resources
             del Tbs
-- 
2.43.0


From 493e6356a699f64a4c9660374d81426599a8990f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:41 +0000
Subject: [PATCH 49/75] fix: BVLS coefficients negative by rounding

lsq_linear may return coefficients like -1e-20 for a bound of 0; the fit was
then flagged as a negative model.
---
 py/redrock/zscan.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/redrock/zscan.py b/py/redrock/zscan.py
index a4ac0a5..1167805 100644
--- a/py/redrock/zscan.py
+++ b/py/redrock/zscan.py
@@ -1174,14 +1174,14 @@ def solve_matrices(M, y, solve_algorithm="PCA", solver_args=None, use_gpu=False)
             for j in range(nz):
                 try:
                     res = lsq_linear(Mcpu[j,:,:], ycpu[j,:], bounds=bounds, method='bvls')
-                    zcoeff[j,:] = res.x
+                    zcoeff[j,:] = np.clip(res.x, bounds[0], bounds[1]) # can be outside by rounding
                 except np.linalg.LinAlgError:
                     zcoeff[j,:] = HUGE_CHI2
             return cp.asarray(zcoeff)
         else:
             try:
                 res = lsq_linear(M, y, bounds=bounds, method='bvls')
-                zcoeff = res.x
+                zcoeff = np.clip(res.x, bounds[0], bounds[1]) # can be outside by rounding
             except np.linalg.LinAlgError:
                 raise
             return zcoeff
-- 
2.43.0


From 384b4a39e4182193e9fcb67d0f3059ab7da3abbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:25 +0000
Subject: [PATCH 50/75] fix: rrdesi --gpu with over 10000 targets per GPU

The ranks without GPU then got targets as well, although they have no
templates, and the run failed.
---
 py/redrock/external/desi.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index 0d42dfe..aebaf77 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -983,9 +983,10 @@ def rrdesi(options=None, comm=None):
         if ngpu_procs > 0 and ncpu_procs > 0:
             # On Perlmutter, 1:15 seems like a good ratio
             #capacities = [1 if is_gpu_proc else 1.0/15 for is_gpu_proc in gpu_proc_flags]
-            #With new GPU implementation of zscan, use 1:10000 so that only GPU-enabled
-            #procs get allocated targets
-            capacities = [1 if is_gpu_proc else 1.0/10000 for is_gpu_proc in gpu_proc_flags]
+            #With new GPU implementation of zscan, only GPU-enabled procs may get
+            #targets: the others have no templates, so use a negligible capacity
+            #that no number of targets can make up for
+            capacities = [1 if is_gpu_proc else 1e-12 for is_gpu_proc in gpu_proc_flags]
         else:
             capacities = None
 
-- 
2.43.0


From dc9b4f5f83f538bc024aa3455f66ac2d28194f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:49 +0000
Subject: [PATCH 51/75] fix: GPU copies of the spectra outlived compute_coadd

---
 py/redrock/targets.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 3479bf2..21e93ee 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -379,6 +379,10 @@ class Target(object):
 
         # swap the coadds into place.
         self.spectra = coadd
+        # copies on the GPU are of the previous spectra
+        self.gpuweights = None
+        self.gpuflux = None
+        self.gpuwflux = None
         return
 
     def sharedmem_pack(self):
-- 
2.43.0


From a2edfce77105abe826b31ba5280b4e8ca94ee44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:32 +0000
Subject: [PATCH 52/75] fix: wrap-redrock ran rrdesi without -i and rrboss with
 unknown options

---
 bin/wrap-redrock | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index 767485d..2e3bcd7 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -319,12 +319,14 @@ def run_redrock(args, comm=None):
         sys.stdout.flush()
 
         if args.datatype == 'desi':
-            cmd = 'rrdesi {}'.format(specfiles[i])
+            cmd = 'rrdesi -i {}'.format(specfiles[i])
+            outopt, detailopt = '--outfile', '--details'
         elif args.datatype == 'boss':
             cmd = 'rrboss --spplate {}'.format(specfiles[i])
+            outopt, detailopt = '--zbest', '--output'
 
         cmd += ' --nminima {}'.format(args.nminima)
-        cmd += ' --outfile {} --details {}'.format(rrfiles[i], detailsfiles[i])
+        cmd += ' {} {} {} {}'.format(outopt, rrfiles[i], detailopt, detailsfiles[i])
         logfile = rrfiles[i].replace('.fits', '.log')
         assert logfile != rrfiles[i]
 
-- 
2.43.0


From 67796645bab9457eda66354e18e445ca77799b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:32 +0000
Subject: [PATCH 53/75] fix: wrap-redrock crashed when all files were processed

---
 bin/wrap-redrock | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index 2e3bcd7..e14c645 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -307,6 +307,9 @@ def run_redrock(args, comm=None):
         groups = comm.bcast(groups, root=0)
         specfiles = comm.bcast(specfiles, root=0)
 
+    if len(specfiles) == 0:
+        return
+
     assert len(groups) == size
     assert len(np.concatenate(groups)) == len(specfiles)
 
-- 
2.43.0


From 185022a63af6a7abf25d8ed0b38e891315a12b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:32 +0000
Subject: [PATCH 54/75] fix: wrap-redrock --plan dropped options of the planned
 job

---
 bin/wrap-redrock | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index e14c645..55a228c 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -281,6 +281,10 @@ def plan(args, comm=None):
             os.path.abspath(__file__), args.mp, args.reduxdir)
         if args.outdir is not None:
             rrcmd += ' --outdir {}'.format(os.path.abspath(args.outdir))
+        if args.archetypes is not None:
+            rrcmd += ' --archetypes {}'.format(args.archetypes)
+        rrcmd += ' --nminima {} --datatype {} --prefix {}'.format(
+            args.nminima, args.datatype, args.prefix)
         print('srun -N $nodes -n $nodes -c {} {}'.format(maxproc, rrcmd))
 
     return specfiles, groups, grouptimes
-- 
2.43.0


From 7328116138a8bb35943d17ef317d15971ed9cb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:32 +0000
Subject: [PATCH 55/75] fix: wrap-redrock --plan of boss files with few
 processes raised TypeError

---
 bin/wrap-redrock | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index 55a228c..8b22d01 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -219,7 +219,7 @@ def plan(args, comm=None):
         #- BOSS files all have the same number of spectra, so no load balancing
         groups = np.array_split(np.arange(len(specfiles)), args.maxnodes)
         ntargets = [1000*len(x) for x in groups]
-        grouptimes = [30 + 250*len(x) for x in groups]
+        grouptimes = np.array([30 + 250*len(x) for x in groups])
     else:
         raise ValueError('Unknown --datatype {}'.format(args.datatype))
 
@@ -245,7 +245,7 @@ def plan(args, comm=None):
         #- scale longer if purposefullying using fewer cores (e.g. for memory)
         if args.mp < maxproc // 2:
             scale = (maxproc//2) / args.mp
-            grouptimes *= scale
+            grouptimes = grouptimes * scale
 
         jobtime = int(1.15 * (plantime + np.max(grouptimes)))
         jobhours = jobtime // 3600
-- 
2.43.0


From f4a3ec3e7dfdc33e68712b2f2217d2d84c5bec69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:32 +0000
Subject: [PATCH 56/75] fix: wrap-redrock listed files in the directory to
 avoid

---
 bin/wrap-redrock | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index 8b22d01..7414158 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -98,16 +98,13 @@ def find_specfiles(reduxdir, outdir=None, prefix='spectra', avoiddir=None):
     # print("looking for spectra files under {}".format(reduxdir))
 
     if avoiddir is not None:
-        avoiddir = os.path.normpath(avoiddir)
+        avoiddir = os.path.abspath(avoiddir)
 
     specfiles = list()
     for dirpath, dirnames, filenames in os.walk(reduxdir, followlinks=True, topdown=True):
-        if os.path.normpath(dirpath) == avoiddir:
-            while True:
-                try:
-                    dirnames.pop()
-                except IndexError:
-                    break
+        if os.path.abspath(dirpath) == avoiddir:
+            dirnames.clear()
+            continue
 
         for filename in filenames:
             if filename.startswith(prefix) and filename.endswith('.fits'):
-- 
2.43.0


From b4505dc5cd43a39eb88506236b6344824093e121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:32 +0000
Subject: [PATCH 57/75] fix: wrap-redrock required numbers as directory names

---
 bin/wrap-redrock | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index 7414158..9b891b2 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -314,7 +314,7 @@ def run_redrock(args, comm=None):
     assert len(groups) == size
     assert len(np.concatenate(groups)) == len(specfiles)
 
-    pixels = np.array([int(os.path.basename(os.path.dirname(x))) for x in specfiles])
+    pixels = [os.path.basename(os.path.dirname(x)) for x in specfiles]
     rrfiles = spectra2outfiles(specfiles, args.prefix, 'redrock', outdir=args.outdir)
     detailsfiles = spectra2outfiles(specfiles, args.prefix, 'rrdetails', outdir=args.outdir, ext='h5')
 
-- 
2.43.0


From 83cdbbc87b961519e427d010aa17cec856a12c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:05 +0000
Subject: [PATCH 58/75] fix: wrap-redrock --plan asked for more nodes than boss
 files

---
 bin/wrap-redrock | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index 9b891b2..e798892 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -214,7 +214,10 @@ def plan(args, comm=None):
         groups, ntargets, grouptimes = group_specfiles(specfiles, args.maxnodes, comm=comm)
     elif args.datatype == 'boss':
         #- BOSS files all have the same number of spectra, so no load balancing
-        groups = np.array_split(np.arange(len(specfiles)), args.maxnodes)
+        numnodes = args.maxnodes
+        if comm is None:
+            numnodes = min(numnodes, len(specfiles))
+        groups = np.array_split(np.arange(len(specfiles)), numnodes)
         ntargets = [1000*len(x) for x in groups]
         grouptimes = np.array([30 + 250*len(x) for x in groups])
     else:
-- 
2.43.0


From 32dff8e0655b3ab03ec185a15f6acfee024b5967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:44 +0000
Subject: [PATCH 59/75] fix: wrap-redrock commands were broken by spaces in
 paths

---
 bin/wrap-redrock | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index e798892..c6872af 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -5,7 +5,7 @@ MPI wrapper for redrock
 """
 
 from __future__ import absolute_import, division, print_function
-import sys, os, glob, time, subprocess, re
+import sys, os, glob, time, subprocess, re, shlex
 import argparse
 import numpy as np
 from astropy.io import fits
@@ -326,14 +326,14 @@ def run_redrock(args, comm=None):
         sys.stdout.flush()
 
         if args.datatype == 'desi':
-            cmd = 'rrdesi -i {}'.format(specfiles[i])
+            cmd = 'rrdesi -i {}'.format(shlex.quote(specfiles[i]))
             outopt, detailopt = '--outfile', '--details'
         elif args.datatype == 'boss':
-            cmd = 'rrboss --spplate {}'.format(specfiles[i])
+            cmd = 'rrboss --spplate {}'.format(shlex.quote(specfiles[i]))
             outopt, detailopt = '--zbest', '--output'
 
         cmd += ' --nminima {}'.format(args.nminima)
-        cmd += ' {} {} {} {}'.format(outopt, rrfiles[i], detailopt, detailsfiles[i])
+        cmd += ' {} {} {} {}'.format(outopt, shlex.quote(rrfiles[i]), detailopt, shlex.quote(detailsfiles[i]))
         logfile = rrfiles[i].replace('.fits', '.log')
         assert logfile != rrfiles[i]
 
@@ -341,7 +341,7 @@ def run_redrock(args, comm=None):
             cmd += ' --mp {}'.format(args.mp)
 
         if args.archetypes is not None:
-            cmd += ' --archetypes {}'.format(args.archetypes)
+            cmd += ' --archetypes {}'.format(shlex.quote(args.archetypes))
 
         print('Rank {} RUNNING {}'.format(rank, cmd))
         print('LOGGING to {}'.format(logfile))
@@ -359,7 +359,7 @@ def run_redrock(args, comm=None):
                 #- memory leak?  Try making system call instead
                 ### desi.rrdesi(cmd.split()[1:])
                 with open(logfile, 'w') as log:
-                    err = subprocess.call(cmd.split(), stdout=log, stderr=log)
+                    err = subprocess.call(shlex.split(cmd), stdout=log, stderr=log)
                 dt1 = time.time() - t1
                 if err == 0:
                     print('FINISHED pix {} rank {} try {} in {:.1f} sec'.format(pixels[i], rank, retry, dt1))
-- 
2.43.0


From 02ab9f1492c19c486203de9b7db1b251d7887bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:41 +0000
Subject: [PATCH 60/75] fix: wrap-redrock of boss files failed with more ranks
 than --maxnodes

---
 bin/wrap-redrock | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index c6872af..af3a0d9 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -214,9 +214,10 @@ def plan(args, comm=None):
         groups, ntargets, grouptimes = group_specfiles(specfiles, args.maxnodes, comm=comm)
     elif args.datatype == 'boss':
         #- BOSS files all have the same number of spectra, so no load balancing
-        numnodes = args.maxnodes
-        if comm is None:
-            numnodes = min(numnodes, len(specfiles))
+        if comm is not None:
+            numnodes = comm.size
+        else:
+            numnodes = min(args.maxnodes, len(specfiles))
         groups = np.array_split(np.arange(len(specfiles)), numnodes)
         ntargets = [1000*len(x) for x in groups]
         grouptimes = np.array([30 + 250*len(x) for x in groups])
-- 
2.43.0


From 4ed6254290c23463efb863bbb4f51fac4db3c4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:09 +0000
Subject: [PATCH 61/75] fix: plotted template models were too high by 1+z

---
 py/redrock/plotspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/plotspec.py b/py/redrock/plotspec.py
index ffdc60e..14f611c 100644
--- a/py/redrock/plotspec.py
+++ b/py/redrock/plotspec.py
@@ -166,7 +166,7 @@ class PlotSpec(object):
             if self.archetypes:
                 mx = tp.eval(zz['subtype'], zz['coeff'][0:zz['ncoeff']], spec.wave, zz['z'], legcoeff=zz['legcoeff'])
             else:
-                mx = tp.eval(coeff[0:tp.nbasis], spec.wave, zz['z']) * (1+zz['z'])
+                mx = tp.eval(coeff[0:tp.nbasis], spec.wave, zz['z'])
             model = spec.R.dot(mx)
             flux = spec.flux.copy()
             isbad = (spec.ivar == 0)
-- 
2.43.0


From 119f14bbc2b19219ec65d3af82f09f4497c7f92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:09 +0000
Subject: [PATCH 62/75] fix: plots of archetype fits with Legendre terms per
 camera

---
 py/redrock/plotspec.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/py/redrock/plotspec.py b/py/redrock/plotspec.py
index 14f611c..4686202 100644
--- a/py/redrock/plotspec.py
+++ b/py/redrock/plotspec.py
@@ -164,7 +164,11 @@ class PlotSpec(object):
         specs_to_read = target.spectra
         for spec in specs_to_read:
             if self.archetypes:
-                mx = tp.eval(zz['subtype'], zz['coeff'][0:zz['ncoeff']], spec.wave, zz['z'], legcoeff=zz['legcoeff'])
+                legcoeff = zz['legcoeff']
+                if legcoeff.ndim > 1:
+                    #- Legendre terms of this camera
+                    legcoeff = legcoeff[list(dwave).index(spec.wavehash)]
+                mx = tp.eval(zz['subtype'], zz['coeff'][0:zz['ncoeff']], spec.wave, zz['z'], legcoeff=legcoeff)
             else:
                 mx = tp.eval(coeff[0:tp.nbasis], spec.wave, zz['z'])
             model = spec.R.dot(mx)
-- 
2.43.0


From 554eb273b0ebca1f5e256442f98ddf599e537d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:09 +0000
Subject: [PATCH 63/75] fix: plots of template fits when archetypes of other
 types were given

---
 py/redrock/plotspec.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py/redrock/plotspec.py b/py/redrock/plotspec.py
index 4686202..5fa43b6 100644
--- a/py/redrock/plotspec.py
+++ b/py/redrock/plotspec.py
@@ -106,7 +106,8 @@ class PlotSpec(object):
         coeff = zz['coeff']
 
         fulltype = make_fulltype(zz['spectype'], zz['subtype'])
-        if self.archetypes:
+        archetype_fit = self.archetypes and zz['fitmethod'] == 'ARCH'
+        if archetype_fit:
             dwave = { s.wavehash:s.wave for s in target.spectra }
             tp = self.archetypes.archetypes[zz['spectype']]
         else:
@@ -163,7 +164,7 @@ class PlotSpec(object):
         ymin = ymax = 0.0
         specs_to_read = target.spectra
         for spec in specs_to_read:
-            if self.archetypes:
+            if archetype_fit:
                 legcoeff = zz['legcoeff']
                 if legcoeff.ndim > 1:
                     #- Legendre terms of this camera
-- 
2.43.0


From 76c827039cf8cd432f51ce2ce22de54af4402e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:09 +0000
Subject: [PATCH 64/75] fix: rrplot read only the first of several spectra
 files

---
 bin/rrplot | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/rrplot b/bin/rrplot
index 692a525..1bf0eed 100755
--- a/bin/rrplot
+++ b/bin/rrplot
@@ -56,7 +56,7 @@ else:
 #- Data
 if args.datatype=='desi':
     from redrock.external import desi
-    targets = desi.DistTargetsDESI(args.specfile[0], targetids=targetids, coadd=(not args.allspec))._my_data
+    targets = desi.DistTargetsDESI(args.specfile, targetids=targetids, coadd=(not args.allspec))._my_data
 elif args.datatype=='boss':
     from redrock.external import boss
     targets, targetids = boss.read_spectra(args.specfile, targetids=targetids, coadd=(not args.allspec))
-- 
2.43.0


From c8d376e55a8c1a6bb5ce6d415b6c3519b6e874de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:17 +0000
Subject: [PATCH 65/75] fix: plots of archetype fits without Legendre terms

---
 py/redrock/plotspec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/redrock/plotspec.py b/py/redrock/plotspec.py
index 5fa43b6..e3b3296 100644
--- a/py/redrock/plotspec.py
+++ b/py/redrock/plotspec.py
@@ -165,8 +165,8 @@ class PlotSpec(object):
         specs_to_read = target.spectra
         for spec in specs_to_read:
             if archetype_fit:
-                legcoeff = zz['legcoeff']
-                if legcoeff.ndim > 1:
+                legcoeff = zz['legcoeff'] if 'legcoeff' in zz.colnames else None
+                if legcoeff is not None and legcoeff.ndim > 1:
                     #- Legendre terms of this camera
                     legcoeff = legcoeff[list(dwave).index(spec.wavehash)]
                 mx = tp.eval(zz['subtype'], zz['coeff'][0:zz['ncoeff']], spec.wave, zz['z'], legcoeff=legcoeff)
-- 
2.43.0


From 7952012f8cdb8eac6c51fec3afcbec2210589fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:27 +0000
Subject: [PATCH 66/75] fix: plots of targets which rrdesi flagged as without
 data

---
 py/redrock/plotspec.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/py/redrock/plotspec.py b/py/redrock/plotspec.py
index e3b3296..10259e7 100644
--- a/py/redrock/plotspec.py
+++ b/py/redrock/plotspec.py
@@ -107,7 +107,11 @@ class PlotSpec(object):
 
         fulltype = make_fulltype(zz['spectype'], zz['subtype'])
         archetype_fit = self.archetypes and zz['fitmethod'] == 'ARCH'
-        if archetype_fit:
+        #- flagged as NODATA without regard to templates and archetypes
+        nofit = zz['fitmethod'] == 'NONE'
+        if nofit:
+            tp = None
+        elif archetype_fit:
             dwave = { s.wavehash:s.wave for s in target.spectra }
             tp = self.archetypes.archetypes[zz['spectype']]
         else:
@@ -164,7 +168,9 @@ class PlotSpec(object):
         ymin = ymax = 0.0
         specs_to_read = target.spectra
         for spec in specs_to_read:
-            if archetype_fit:
+            if nofit:
+                mx = np.zeros(len(spec.wave))
+            elif archetype_fit:
                 legcoeff = zz['legcoeff'] if 'legcoeff' in zz.colnames else None
                 if legcoeff is not None and legcoeff.ndim > 1:
                     #- Legendre terms of this camera
-- 
2.43.0


From 1eb82bc4e78147f19911df6229eb9c4b94518da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:58 +0000
Subject: [PATCH 67/75] fix: install templates to and from paths with spaces

---
 bin/install_redrock_templates | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bin/install_redrock_templates b/bin/install_redrock_templates
index 3da3044..0f72e3f 100755
--- a/bin/install_redrock_templates
+++ b/bin/install_redrock_templates
@@ -7,6 +7,7 @@ without $RR_TEMPLATE_DIR being set
 
 import os
 import sys
+import shlex
 import importlib
 import subprocess
 import argparse
@@ -40,21 +41,21 @@ def main():
 
     #- full clone for main, depth 1 for other tags/branches
     if args.version == 'main':
-        gitcmd = f"git clone {args.template_url} {templatedir}"
+        gitcmd = ['git', 'clone', args.template_url, templatedir]
     else:
-        gitcmd = f"git clone --depth 1 --branch {args.version} {args.template_url} {templatedir}"
+        gitcmd = ['git', 'clone', '--depth', '1', '--branch', args.version, args.template_url, templatedir]
 
     #- Proceed with installing
     print(f'Installing redrock-templates/{args.version} to {templatedir}')
-    print(gitcmd)
-    p = subprocess.run(gitcmd.split(), capture_output=True)
+    print(shlex.join(gitcmd))
+    p = subprocess.run(gitcmd, capture_output=True)
     if p.returncode != 0:
         if len(p.stdout)>0:
             print(p.stdout.decode())   #- .decode because it is bytes not str
         if len(p.stderr)>0:
             print(p.stderr.decode())
 
-        print('ERROR: failed to install redrock-templates/{args.version}')
+        print(f'ERROR: failed to install redrock-templates/{args.version}')
         return p.returncode
 
     #- Check that the installation worked
-- 
2.43.0


From d6a3461acf3a01e2e182c46055d08d26d22eab41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:58 +0000
Subject: [PATCH 68/75] fix: rrqsotemplate and rrstarwdtemplate with astropy's
 overwrite option

---
 bin/rrqsotemplate    | 2 +-
 bin/rrstarwdtemplate | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/rrqsotemplate b/bin/rrqsotemplate
index a9e45c6..18efec8 100755
--- a/bin/rrqsotemplate
+++ b/bin/rrqsotemplate
@@ -47,7 +47,7 @@ hdus.append(fits.PrimaryHDU(eigenboss, header=header))
 # c = np.zeros((10, eigenboss.shape[0]))
 # hdus.append(fits.ImageHDU(c, name='ARCHETYPE_COEFF'))
 
-hdus.writeto(opts.outfile, clobber=True)
+hdus.writeto(opts.outfile, overwrite=True)
 print('RR: Wrote '+opts.outfile)
 
 
diff --git a/bin/rrstarwdtemplate b/bin/rrstarwdtemplate
index 00fe6f5..75c5a29 100755
--- a/bin/rrstarwdtemplate
+++ b/bin/rrstarwdtemplate
@@ -90,5 +90,5 @@ hdus.append(fits.PrimaryHDU(model.eigvec, header=header))
 hdus.append(fits.ImageHDU(model.coeff, name='ARCHETYPE_COEFF'))
 
 outfile = outbase + '-WD' + outext
-hdus.writeto(outfile, clobber=True)
+hdus.writeto(outfile, overwrite=True)
 print('RR: Wrote '+outfile)
-- 
2.43.0


From 14714ebd996c1d4e60532bf1408355910c592e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:18 +0000
Subject: [PATCH 69/75] fix: exit code of rrconvertSDSStemplates for files it
 cannot convert

---
 bin/rrconvertSDSStemplates | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bin/rrconvertSDSStemplates b/bin/rrconvertSDSStemplates
index d8a15b4..b8a9c21 100755
--- a/bin/rrconvertSDSStemplates
+++ b/bin/rrconvertSDSStemplates
@@ -21,7 +21,7 @@ def convert():
     if "OBJECT" not in cat[0].header or "COEFF0" not in cat[0].header:
         print("ERROR: FITS file has no 'OBJECT' or 'COEFF0': "+opts.infile)
         cat.close()
-        return
+        return 1
 
     if len(cat)!=1:
         print("WARNING: FITS file has more than 1 header: "+opts.infile)
@@ -84,6 +84,6 @@ def convert():
 
     cat.close()
 
-    return
+    return 0
 
-convert()
+sys.exit(convert())
-- 
2.43.0


From 949e74e57495aaccd66eb9c731a97f4cee927123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:28 +0000
Subject: [PATCH 70/75] fix: order of the models when a process has no targets

With more MPI processes than targets the empty list of ids of a process
turned all ids into floats, for which TARGETIDs beyond 2**53 may coincide:
the model file then had the model of another target.
---
 py/redrock/external/desi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index aebaf77..d71e575 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -1224,7 +1224,8 @@ def rrdesi(options=None, comm=None):
                 all_models = list(itertools.chain.from_iterable(all_models))
 
                 #- find sort orrder to match zbest
-                all_targetids = np.concatenate(all_targetids)
+                #- integers even if the list of a process without targets is empty
+                all_targetids = np.concatenate([np.asarray(x, dtype=np.int64) for x in all_targetids])
                 xsorted = np.argsort(all_targetids)
                 ypos = np.searchsorted(all_targetids[xsorted], zbest['TARGETID'])
                 sort_indices = xsorted[ypos]
-- 
2.43.0


From 818b02af84bc2553eb6d8b25c05957a410ffcaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:31 +0000
Subject: [PATCH 71/75] fix: error when there are no archetype files where they
 were asked for

---
 py/redrock/archetypes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/redrock/archetypes.py b/py/redrock/archetypes.py
index 0e1f413..83854f2 100644
--- a/py/redrock/archetypes.py
+++ b/py/redrock/archetypes.py
@@ -481,6 +481,9 @@ def find_archetypes(archetypes_dir=None):
             lstfilename = glob(os.path.join(archetypes_dir_expand, 'rrarchetype-*.fits'))
             lstfilename = sorted([ f.replace(archetypes_dir_expand,archetypes_dir) for f in lstfilename])
 
+    if len(lstfilename) == 0:
+        raise IOError("ERROR: no rrarchetype-*.fits files in {}".format(archetypes_dir))
+
     return lstfilename
 
 
-- 
2.43.0


From 74c47d8dc4a0e6dd2fbdd6d3474ff8fd51f4d7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:46 +0000
Subject: [PATCH 72/75] fix: interpolated archetypes honour the indx argument
 of rebin_template_batch

---
 py/redrock/archetypes.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/py/redrock/archetypes.py b/py/redrock/archetypes.py
index 83854f2..860dd02 100644
--- a/py/redrock/archetypes.py
+++ b/py/redrock/archetypes.py
@@ -167,10 +167,13 @@ class Archetype():
             #Use batch mode of trapz_rebin
             return {hs:trapz_rebin((1.+z)*wave, flux, w, use_gpu=use_gpu) for hs, w in dwave.items()}
         else:
+            indices = np.arange(self._narch)
+            if (indx is not None):
+                indices = indices[indx]
             for hs, w in dwave.items():
-                result[hs] = np.empty((len(w), self._narch))
-                for i in range(self._narch):
-                    result[hs][:,i] = self._archetype['INTERP'][i](w/(1.+z))
+                result[hs] = np.empty((len(w), len(indices)))
+                for j, i in enumerate(indices):
+                    result[hs][:,j] = self._archetype['INTERP'][i](w/(1.+z))
                 if (use_gpu):
                     result[hs] = cp.asarray(result[hs])
             #return {hs:self._archetype['INTERP'](wave/(1.+z)) for hs, wave in dwave.items()}
-- 
2.43.0


From 38962212d83939881891226aa8ba680769b229eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:47 +0000
Subject: [PATCH 73/75] fix: quote paths in the command of a wrap-redrock plan

---
 bin/wrap-redrock | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index af3a0d9..2d1eeec 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -279,13 +279,13 @@ def plan(args, comm=None):
         print()
         print('nodes=$SLURM_JOB_NUM_NODES')
         rrcmd = '{} --mp {} --reduxdir {}'.format(
-            os.path.abspath(__file__), args.mp, args.reduxdir)
+            shlex.quote(os.path.abspath(__file__)), args.mp, shlex.quote(args.reduxdir))
         if args.outdir is not None:
-            rrcmd += ' --outdir {}'.format(os.path.abspath(args.outdir))
+            rrcmd += ' --outdir {}'.format(shlex.quote(os.path.abspath(args.outdir)))
         if args.archetypes is not None:
-            rrcmd += ' --archetypes {}'.format(args.archetypes)
+            rrcmd += ' --archetypes {}'.format(shlex.quote(args.archetypes))
         rrcmd += ' --nminima {} --datatype {} --prefix {}'.format(
-            args.nminima, args.datatype, args.prefix)
+            args.nminima, args.datatype, shlex.quote(args.prefix))
         print('srun -N $nodes -n $nodes -c {} {}'.format(maxproc, rrcmd))
 
     return specfiles, groups, grouptimes
-- 
2.43.0


From 2b99eced9f074a7bd37de17ade6311a345315dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:21 +0000
Subject: [PATCH 74/75] fix: refuse several templates of the same type and
 subtype

---
 py/redrock/zscan.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py/redrock/zscan.py b/py/redrock/zscan.py
index 1167805..d299aa4 100644
--- a/py/redrock/zscan.py
+++ b/py/redrock/zscan.py
@@ -931,6 +931,11 @@ def calc_zchi2_targets(targets, templates, mp_procs=1, use_gpu=False):
     if targets.comm is None:
         mpdist = distribute_targets(targets.local(), mp_procs)
 
+    # Results are kept by type; a second template would replace the first
+    fulltypes = [ t.template.full_type for t in templates ]
+    if len(set(fulltypes)) < len(fulltypes):
+        raise ValueError("several templates of the same type and subtype: {}".format(fulltypes))
+
     results = dict()
     for tid in targets.local_target_ids():
         results[tid] = dict()
-- 
2.43.0


From 348ea17ccf4cb2e0277dd004fe7c210e6d0cf80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:48 +0000
Subject: [PATCH 75/75] fix: plot the scans of templates with a subtype too

---
 py/redrock/plotspec.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/py/redrock/plotspec.py b/py/redrock/plotspec.py
index 10259e7..a9ec6a9 100644
--- a/py/redrock/plotspec.py
+++ b/py/redrock/plotspec.py
@@ -9,7 +9,7 @@ import numpy as np
 
 from . import zwarning
 
-from .templates import make_fulltype
+from .templates import make_fulltype, parse_fulltype
 
 class PlotSpec(object):
     def __init__(self, targets, templates, zscan, zfit, truth=None, archetypes=False):
@@ -126,13 +126,17 @@ class PlotSpec(object):
             force_ylim = self._ax1.get_ylim()
 
         self._ax1.clear()
-        for spectype, fmt in [('STAR', 'k-'), ('GALAXY', 'b-'), ('QSO', 'g-')]:
-            if spectype in self.zscan[target.id]:
-                zx = self.zscan[target.id][spectype]
-                self._ax1.plot(zx['redshifts'], zx['zchi2'], fmt, alpha=0.2,
-                    label='_none_')
-                self._ax1.plot(zx['redshifts'], zx['zchi2']+zx['penalty'], fmt,
-                    label=spectype)
+        formats = {'STAR': 'k-', 'GALAXY': 'b-', 'QSO': 'g-'}
+        labeled = set()
+        for scantype, zx in self.zscan[target.id].items():
+            #- scans are per spectype and subtype, with one label per spectype
+            spectype = parse_fulltype(scantype)[0]
+            fmt = formats.get(spectype, 'm-')
+            self._ax1.plot(zx['redshifts'], zx['zchi2'], fmt, alpha=0.2,
+                label='_none_')
+            self._ax1.plot(zx['redshifts'], zx['zchi2']+zx['penalty'], fmt,
+                label='_none_' if spectype in labeled else spectype)
+            labeled.add(spectype)
 
         self._ax1.plot(zfit['z'], zfit['chi2'], 'r.', label='_none_')
         for row in zfit:
-- 
2.43.0

