From 5cda0faa7190e196278f6aefe5ff0e9f1c647651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 01/43] fix: hand worker processes target data in the order of
 their target ids

calc_zchi2_targets passed the weight-sorted ids of distribute_work together
with data in the order of targets.local(); with unequal numbers of spectra per
target the scan results were filed under the wrong target.
---
 py/redrock/zscan.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/redrock/zscan.py b/py/redrock/zscan.py
index 51f383f..4989c64 100644
--- a/py/redrock/zscan.py
+++ b/py/redrock/zscan.py
@@ -1041,6 +1041,7 @@ def calc_zchi2_targets(targets, templates, mp_procs=1, use_gpu=False):
             # Ensure that all targets are packed into shared memory
             for tg in targets.local():
                 tg.sharedmem_pack()
+            targets_by_id = { tg.id:tg for tg in targets.local() }
 
             # We explicitly spawn processes here (rather than using a pool.map)
             # so that we can communicate the read-only objects once and send
@@ -1054,7 +1055,8 @@ def calc_zchi2_targets(targets, templates, mp_procs=1, use_gpu=False):
                 if len(mpdist[i]) == 0:
                     continue
                 target_ids = mpdist[i]
-                target_data = [ x for x in targets.local() if x.id in mpdist[i] ]
+                # same order as target_ids
+                target_data = [ targets_by_id[tid] for tid in target_ids ]
                 p = mp.Process(target=_mp_calc_zchi2,
                     args=(i, target_ids, target_data, t, use_gpu, qout, qprog))
                 procs.append(p)
-- 
2.43.0


From acd3a780eb3dc5477847b278b77599cf191b4a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 02/43] fix: keep DistTargetsCopy ids and data in the same
 order without MPI

_local_target_ids() is sorted by weight, _local_data() was in input order;
both are consumed in parallel by calc_zchi2.
---
 py/redrock/targets.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 9a4780e..a164bb7 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -558,7 +558,9 @@ class DistTargetsCopy(DistTargets):
 
         self._my_data = None
         if comm is None:
-            self._my_data = targets
+            # same order as self._my_targets
+            tbuf = { tg.id:tg for tg in targets }
+            self._my_data = [ tbuf[x] for x in self._my_targets ]
         else:
             tbuf = dict()
             for tg in targets:
-- 
2.43.0


From 57496768d7de8c7b746dfd4fafe513ec373a950b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 03/43] fix: templates.eval_model works without resolution
 matrices

R=None is the documented default but R[i] was evaluated unconditionally.
---
 py/redrock/templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/templates.py b/py/redrock/templates.py
index a12a86b..89a75a7 100644
--- a/py/redrock/templates.py
+++ b/py/redrock/templates.py
@@ -827,7 +827,7 @@ def eval_model(data, wave, R=None, templates=None):
         tx = templates[(data['SPECTYPE'][i], data['SUBTYPE'][i])]
         coeff = data['COEFF'][i][0:tx.nbasis]
         z = data['Z'][i]
-        models[i] = tx.eval(coeff, wave, z, R=R[i])
+        models[i] = tx.eval(coeff, wave, z, R=None if R is None else R[i])
 
     return models
 
-- 
2.43.0


From bf887f268a3e9626b0ae481047211d6049fe6260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 04/43] fix: set ncamera in archetype fits without a
 coefficient prior

fitz() read ncamera for split_archetype_coeff but only set it when prior_sigma
was given (UnboundLocalError otherwise).
---
 py/redrock/fitz.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/py/redrock/fitz.py b/py/redrock/fitz.py
index 82bb65d..0c110f6 100644
--- a/py/redrock/fitz.py
+++ b/py/redrock/fitz.py
@@ -331,11 +331,11 @@ def fitz(zchi2, redshifts, target, template, nminima=3, archetype=None, use_gpu=
                 chi2=chi2min, zz=zz, zzchi2=zzchi2,
                 coeff=coeff, fitmethod=template.method))
         else:
+            if per_camera:
+                ncamera = len(list(dwave.keys())) # number of cameras, for e.g. DESI has three cameras
+            else:
+                ncamera = 1
             if prior_sigma is not None:
-                if per_camera:
-                    ncamera = len(list(dwave.keys())) # number of cameras, for e.g. DESI has three cameras
-                else:
-                    ncamera = 1
                 if n_nearest is None:
                     prior = prior_on_coeffs(1, deg_legendre, prior_sigma, ncamera)
                 else:
-- 
2.43.0


From 47a49e5931501119fd7ab6e6ba2ebc423d40492f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 05/43] fix: allow nearest-neighbour archetype fits without a
 coefficient prior

get_best_archetype called prior.copy() with prior=None.
---
 py/redrock/archetypes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py/redrock/archetypes.py b/py/redrock/archetypes.py
index dae679a..88fb1fd 100644
--- a/py/redrock/archetypes.py
+++ b/py/redrock/archetypes.py
@@ -362,8 +362,9 @@ class Archetype():
         # this logic is needed because the first fitting is done with just one archetype
         #and then nearest neighbour approach is implemented
         if n_nearest is not None:
-            nnearest_prior = prior.copy() # prior corresponding to nearest_nbh method
-            prior = prior[n_nearest-1:,][:,n_nearest-1:] # removing first rows/columns corresponding to the nearest_archetypes, and keeping just one row for one archetype
+            nnearest_prior = prior # prior corresponding to nearest_nbh method
+            if prior is not None:
+                prior = prior[n_nearest-1:,][:,n_nearest-1:] # removing first rows/columns corresponding to the nearest_archetypes, and keeping just one row for one archetype
 
         for hs, wave in dwave.items():
             if (trans[hs] is not None):
-- 
2.43.0


From 86df27646920c016ffdd64ca2b17a718b79f8935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 06/43] fix: give the nearest-neighbour archetype fit a solver

Without per-camera mode calc_zchi2_batch was called with
solve_matrices_algorithm=None, which fails on None.upper().
---
 py/redrock/archetypes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/py/redrock/archetypes.py b/py/redrock/archetypes.py
index 88fb1fd..eb0b526 100644
--- a/py/redrock/archetypes.py
+++ b/py/redrock/archetypes.py
@@ -284,7 +284,11 @@ class Archetype():
             (zzchi2, zzcoeff) = per_camera_coeff_with_least_square_batch(target, tdata, weights, flux, wflux, nleg, 1, method='bvls', n_nbh=n_nearest, prior=prior, use_gpu=False, bands=target.bands)
         else:
             #Use CPU mode for calc_zchi2 since small tdata
-            (zzchi2, zzcoeff) = calc_zchi2_batch(spectra, tdata, weights, flux, wflux, 1, nbasis, use_gpu=False)
+            # as in get_best_archetype: archetype terms must be non-negative, legendre terms are free
+            bounds = np.zeros((2, nbasis))
+            bounds[0][n_nearest:] = -np.inf
+            bounds[1] = np.inf
+            (zzchi2, zzcoeff) = calc_zchi2_batch(spectra, tdata, weights, flux, wflux, 1, nbasis, solve_matrices_algorithm='BVLS', solver_args={'bounds':bounds}, use_gpu=False)
 
         sstype = ['%s'%(self._subtype[k]) for k in iBest] # subtypes of best archetypes
         fsstype = ';'.join(sstype)
-- 
2.43.0


From 39bc287f95ebad2a7b0a1312a100c4ae440ccc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 07/43] fix: keep the old details file until the new one is
 complete

write_zscan(clobber=True) removed the existing file before writing the
temporary one; a crash in between lost both.  os.rename replaces it anyway.
---
 py/redrock/results.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/py/redrock/results.py b/py/redrock/results.py
index 151d6cd..6dae79d 100644
--- a/py/redrock/results.py
+++ b/py/redrock/results.py
@@ -32,13 +32,11 @@ def write_zscan(filename, zscan, zfit, clobber=False):
         filename (str): the output file path.
         zscan (dict): the full set of fit results.
         zfit (Table): the best fit redshift results.
-        clobber (bool): if True, delete the file if it exists.
+        clobber (bool): if True, replace the file if it exists.
 
     """
     import h5py
     filename = os.path.expandvars(filename)
-    if clobber and os.path.exists(filename):
-        os.remove(filename)
 
     outdir = os.path.dirname(os.path.abspath(filename))
     if not os.path.exists(outdir):
-- 
2.43.0


From 87f58b1173273ee3c69a8d2a4ac9989aef90af0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 08/43] fix: read all text columns of the zfit tables back as
 text

write_zscan encodes five columns as bytes, read_zfit decoded only two.
---
 py/redrock/results.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py/redrock/results.py b/py/redrock/results.py
index 6dae79d..ebf6d80 100644
--- a/py/redrock/results.py
+++ b/py/redrock/results.py
@@ -197,8 +197,9 @@ def read_zfit(filename, select_targetids=None, upper=False):
 
         zfit = [fx[f'zfit/{tid}/zfit'][:] for tid in select_targetids]
         zfit = Table(np.hstack(zfit))
-        zfit.replace_column('spectype', encode_column(zfit['spectype']))
-        zfit.replace_column('subtype', encode_column(zfit['subtype']))
+        for colname in ('spectype', 'subtype', 'fitmethod', 'pca_spectype', 'pca_subtype'):
+            if colname in zfit.colnames:
+                zfit.replace_column(colname, encode_column(zfit[colname]))
 
     if upper:
         for colname in list(zfit.colnames):
-- 
2.43.0


From a9fbbdd2df72357337ddd3f432474ae8802fbeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 09/43] fix: stop with an error when a worker process fails

The worker wrappers printed the exception and ended without a message, and the
parent waited forever in Queue.get().
---
 py/redrock/utils.py | 16 ++++++++++++++++
 py/redrock/zfind.py |  6 +++++-
 py/redrock/zscan.py |  9 ++++++++-
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/py/redrock/utils.py b/py/redrock/utils.py
index 599d88f..46ccb05 100644
--- a/py/redrock/utils.py
+++ b/py/redrock/utils.py
@@ -96,6 +96,22 @@ def elapsed(timer, prefix, comm=None):
     return cur
 
 
+def abort_workers(procs):
+    """Stop all worker processes and raise RuntimeError.
+
+    Called by the parent process when a worker reports that it failed.
+
+    Args:
+        procs (list): list of multiprocessing.Process objects
+
+    """
+    for p in procs:
+        p.terminate()
+    for p in procs:
+        p.join()
+    raise RuntimeError("a worker process failed; see its traceback above")
+
+
 def nersc_login_node():
     """Returns True if we are on a NERSC login node, else False.
     """
diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index e2fd2fd..3d584c8 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -17,7 +17,7 @@ import astropy.table
 
 from . import constants
 
-from .utils import elapsed, extra_columns_in_archetype_mode
+from .utils import elapsed, abort_workers, extra_columns_in_archetype_mode
 
 from .targets import distribute_targets
 
@@ -99,6 +99,8 @@ def _mp_fitz(chi2, target_data, t, nminima, qout, archetype, use_gpu, deg_legend
         lines = [ "MP calc_zchi2: {}".format(x) for x in lines ]
         print("".join(lines))
         sys.stdout.flush()
+        # tell the parent, which waits for a message from every worker
+        qout.put(None)
 
 def calc_deltachi2(chi2, z, zwarn, dvlimit=constants.max_velo_diff):
     '''
@@ -392,6 +394,8 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
                 if len(mpdist[i]) == 0:
                     continue
                 res = qout.get()
+                if res is None:
+                    abort_workers(procs)
                 for rs in res:
                     results[rs[0]][ft]['zfit'] = rs[1]
 
diff --git a/py/redrock/zscan.py b/py/redrock/zscan.py
index 4989c64..6f0cd42 100644
--- a/py/redrock/zscan.py
+++ b/py/redrock/zscan.py
@@ -30,7 +30,7 @@ cp = None
 #and attempts will be made to minimize memory usage to under 4 GB
 cp_memcheck = False
 
-from .utils import elapsed
+from .utils import elapsed, abort_workers
 
 from .targets import distribute_targets
 
@@ -905,6 +905,9 @@ def _mp_calc_zchi2(indx, target_ids, target_data, t, use_gpu, qout, qprog):
         lines = [ "MP calc_zchi2: {}".format(x) for x in lines ]
         print("".join(lines))
         sys.stdout.flush()
+        # tell the parent, which waits for messages on both queues
+        qprog.put(None)
+        qout.put(None)
 
 
 def calc_zchi2_targets(targets, templates, mp_procs=1, use_gpu=False):
@@ -1073,6 +1076,8 @@ def calc_zchi2_targets(targets, templates, mp_procs=1, use_gpu=False):
             proglast = 0
             while (tot < ntarget):
                 cnt = qprog.get()
+                if cnt is None:
+                    abort_workers(procs)
                 tot += cnt
                 prg = int(100.0 * tot / ntarget)
                 if prg >= proglast + progincr:
@@ -1086,6 +1091,8 @@ def calc_zchi2_targets(targets, templates, mp_procs=1, use_gpu=False):
             penalty = dict()
             for _ in range(len(procs)):
                 res = qout.get()
+                if res is None:
+                    abort_workers(procs)
                 tids = mpdist[res[0]]
                 for j,tid in enumerate(tids):
                     zchi2[tid] = res[1][j]
-- 
2.43.0


From cb9e14e95f28a40d67b15947b451b30c6a626447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 10/43] fix: use the same cameras and camera order in archetype
 fits and models

Target.bands listed the pre-coadd spectra, one entry per exposure, so the
per-camera fit allocated too many Legendre blocks; the coefficients are saved
in sorted band order but eval_model applied them in spectrum order.
---
 py/redrock/targets.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index a164bb7..28d0e8d 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -166,6 +166,8 @@ class Target(object):
         else:
             self.meta = meta
 
+        self._set_bands()
+
         if coadd:
             self.compute_coadd(cache_Rcsr=False, cosmics_nsig=cosmics_nsig)
 
@@ -177,9 +179,14 @@ class Target(object):
         self._legendre = None
         self._gpulegendre = None
         self.nleg = 0
+
+    def _set_bands(self):
+        """Set self.bands to the unique bands of the current spectra, in order.
+        """
         self.bands = []
-        for s in spectra:
-            self.bands.append(s.band)
+        for s in self.spectra:
+            if s.band not in self.bands:
+                self.bands.append(s.band)
 
     def eval_model(self, bestfit, templates, archetypes=None, nleg=None):
         """
@@ -222,6 +229,10 @@ class Target(object):
             archcoeff, legcoeff = coeff[0:narchetypes], bestfit["LEGCOEFF"]
             if legcoeff.ndim==1:
                 legcoeff = [legcoeff for i in range(len(self.spectra))]
+            else:
+                # per-camera coefficients are saved in sorted band order
+                sorted_bands = sorted(self.bands)
+                legcoeff = [legcoeff[sorted_bands.index(sp.band)] for sp in self.spectra]
             ax = archetypes[spectype]
             for i, sp in enumerate(self.spectra):
                 self.model[sp.wavehash] = ax.eval(subtype, archcoeff, sp.wave, z, R=sp.Rcsr, legcoeff=legcoeff[i])
@@ -370,6 +381,7 @@ class Target(object):
 
         # swap the coadds into place.
         self.spectra = coadd
+        self._set_bands()
         return
 
     def sharedmem_pack(self):
-- 
2.43.0


From 09ee2b07c6dc756324fd205b242b79f7136ae824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 11/43] fix: read BOSS spectra with current numpy and without
 undefined names

---
 py/redrock/external/boss.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 6e215aa..446c865 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -166,7 +166,7 @@ def read_spectra(spplates_name, targetids=None, use_frames=False,
             assert plate == h[0].read_header()["PLATEID"]
         fs = h[5]["FIBERID"][:]
         if fiberid is not None:
-            w = np.in1d(fs,fiberid)
+            w = np.isin(fs,fiberid)
             fs = fs[w]
 
         fl = h[0].read()
@@ -214,7 +214,7 @@ def read_spectra(spplates_name, targetids=None, use_frames=False,
             if useThingid:
                 t = fiberid2thingid[infile][f-1]
             else:
-                t = platemjdfiber2targetid(plate, mjd, f)
+                t = platemjdfiber2targetid(plate, mjd, int(f))
             if not targetids is None and not t in targetids:
                 continue
 
@@ -268,7 +268,7 @@ def read_spectra(spplates_name, targetids=None, use_frames=False,
         if len(spectra) > 0:
             targets.append(Target(targetid, spectra, coadd=coadd, meta=tmeta))
         else:
-            print('ERROR: Target {} on {} has no good spectra'.format(targetid, os.path.basename(brickfiles[0])))
+            print('ERROR: Target {} on {} has no good spectra'.format(targetid, os.path.basename(infiles[0])))
 
     #- Create a metadata table in case we might want to add other columns
     #- in the future
-- 
2.43.0


From ac8cca09a0974fad974a8612f5345a6b7e6ccf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 12/43] fix: rrboss --mintarget takes effect without --ntargets

---
 py/redrock/external/boss.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 446c865..422888e 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -449,9 +449,12 @@ def rrboss(options=None, comm=None):
             use_frames=args.use_frames, coadd=(not args.allspec),
             cache_Rcsr=True, use_andmask=args.use_andmask)
 
-        if args.ntargets is not None:
-            targets = targets[first_target:first_target+n_targets]
-            meta = meta[first_target:first_target+n_targets]
+        if first_target is not None:
+            last_target = len(targets)
+            if n_targets is not None:
+                last_target = first_target + n_targets
+            targets = targets[first_target:last_target]
+            meta = meta[first_target:last_target]
 
         stop = elapsed(start, "Read of {} targets"\
             .format(len(targets)), comm=comm)
-- 
2.43.0


From c9142f0f1107ce388065d204753a683c5b88ce87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 13/43] fix: rrboss passes loaded archetypes to zfind

---
 py/redrock/external/boss.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 422888e..f2351ab 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -481,9 +481,15 @@ def rrboss(options=None, comm=None):
 
         start = elapsed(None, "", comm=comm)
 
+        archetypes = None
+        if args.archetypes is not None:
+            archetypes = All_archetypes(archetypes_dir=args.archetypes).archetypes
+
+        # archetypes are fit without Legendre polynomials
         scandata, zfit = zfind(dtargets, dtemplates, mpprocs,
-            nminima=args.nminima, archetypes=args.archetypes,
-            priors=args.priors, chi2_scan=args.chi2_scan)
+            nminima=args.nminima, archetypes=archetypes,
+            priors=args.priors, chi2_scan=args.chi2_scan,
+            per_camera=False, deg_legendre=0)
 
         stop = elapsed(start, "Computing redshifts took", comm=comm)
 
@@ -510,8 +516,7 @@ def rrboss(options=None, comm=None):
 
                 template_version = {t._template.full_type:t._template._version for t in dtemplates}
                 archetype_version = None
-                if not args.archetypes is None:
-                    archetypes = All_archetypes(archetypes_dir=args.archetypes).archetypes
+                if archetypes is not None:
                     archetype_version = {name:arch._version for name, arch in archetypes.items() }
                 write_zbest(args.zbest, zbest, template_version, archetype_version)
 
-- 
2.43.0


From 315324cc848b5418dea044dc534ff58cc82ea261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 14/43] fix: rrdesi --mintarget works without --ntargets

---
 py/redrock/external/desi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index e319478..35c229c 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -360,7 +360,7 @@ class DistTargetsDESI(DistTargets):
                     format(first_target))
 
             if n_target is None:
-                nkeep = len(keep_targetids)
+                nkeep = len(keep_targetids) - first_target
             else:
                 nkeep = n_target
 
-- 
2.43.0


From 546ceefc5de3c6a465fe30e6623b67cdc91be598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 15/43] fix: keep selected DESI targets in the order of the
 file

---
 py/redrock/external/desi.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index 35c229c..31be1ae 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -348,7 +348,9 @@ class DistTargetsDESI(DistTargets):
             if targetids is None:
                 keep_targetids = coadd_fmap["TARGETID"]
             else:
-                keep_targetids = targetids
+                # in file order, like the tables sliced below
+                keep_targetids = coadd_fmap["TARGETID"][ \
+                    np.isin(coadd_fmap["TARGETID"], targetids)]
 
             # Select a subset of the target range from each file if desired.
 
-- 
2.43.0


From bd944695b105c8955d40aeca22b460b8a1b3e4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 16/43] fix: restrict a reloaded chi2 scan to the local targets

---
 py/redrock/zfind.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index 3d584c8..ea86599 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -292,6 +292,8 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
         results = calc_zchi2_targets(targets, templates, mp_procs=mp_procs, use_gpu=use_gpu)
     else:
         results = read_zscan_redrock(chi2_scan)
+        # keep only the targets that this process works on
+        results = { tid:results[tid] for tid in targets.local_target_ids() }
     elapsed(start_zscan, "Scanning redshifts", comm=targets.comm)
 
     if (use_gpu):
-- 
2.43.0


From d2ec2d8a404a0a10566b03f9b732d49793185a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 17/43] fix: apply IGM absorption when evaluating template
 models

---
 py/redrock/templates.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py/redrock/templates.py b/py/redrock/templates.py
index 89a75a7..9f10441 100644
--- a/py/redrock/templates.py
+++ b/py/redrock/templates.py
@@ -266,6 +266,10 @@ class Template(object):
         coeff = coeff[0:self.nbasis]
         flux = self.flux.T.dot(coeff).T
         model = trapz_rebin(self.wave*(1+z), flux, wave)
+        # same IGM absorption as when fitting
+        T = transmission_Lyman(z, wave, model=self.igm_model, always_return_array=False)
+        if T is not None:
+            model = model * T
         if R is not None:
             model = R.dot(model)
 
-- 
2.43.0


From 2dc949b210e7487a01633c339aa50e8d57089f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 18/43] fix: weighted mean gradient per wavelength in
 cosmic-ray rejection

---
 py/redrock/targets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 28d0e8d..734eea0 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -350,7 +350,7 @@ class Target(object):
                 grad=np.array(grad)
                 gradivar=1/np.array(gradvar)
                 nspec=grad.shape[0]
-                meangrad=np.sum(gradivar*grad,axis=0)/np.sum(gradivar)
+                meangrad=np.sum(gradivar*grad,axis=0)/np.sum(gradivar,axis=0)
                 deltagrad=grad-meangrad
                 chi2=np.sum(gradivar*deltagrad**2,axis=0)/(nspec-1)
 
-- 
2.43.0


From f6324366bb64cbb5ead49ab62003c9cdb7adb762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 19/43] fix: check archetype range at the redshift of the
 rebinning on the GPU

---
 py/redrock/archetypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/redrock/archetypes.py b/py/redrock/archetypes.py
index eb0b526..9adddf3 100644
--- a/py/redrock/archetypes.py
+++ b/py/redrock/archetypes.py
@@ -142,8 +142,8 @@ class Archetype():
         """
         if (use_gpu):
             import cupy as cp
-            xmin = self.minwave
-            xmax = self.maxwave
+            xmin = self.minwave*(1+z)
+            xmax = self.maxwave*(1+z)
             wave = self.gpuwave
             flux = self.gpuflux
         else:
-- 
2.43.0


From 1e9e1557760aae57ecf5b93d251dca2be7c3abcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 20/43] fix: archetype fits use the IGM absorption at the
 fitted redshift

---
 py/redrock/fitz.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/py/redrock/fitz.py b/py/redrock/fitz.py
index 0c110f6..678a2b6 100644
--- a/py/redrock/fitz.py
+++ b/py/redrock/fitz.py
@@ -260,8 +260,6 @@ def fitz(zchi2, redshifts, target, template, nminima=3, archetype=None, use_gpu=
         i = min(max(np.argmin(zzchi2),1), len(zz)-2)
         zmin, sigma, chi2min, zwarn = minfit(zz[i-1:i+2], zzchi2[i-1:i+2])
 
-        #trans = dict()
-        trans = { hs:None for hs, w in dwave.items() } #define trans with keys and None values
         try:
             #Calculate xmin and xmax from template and pass as scalars
             xmin = template.minwave*(1+zmin)
@@ -279,7 +277,6 @@ def fitz(zchi2, redshifts, target, template, nminima=3, archetype=None, use_gpu=
                 #Use CPU always
                 T = transmission_Lyman(np.array([zmin]),dwave[k], use_gpu=False, always_return_array=False,
                                        model=template.igm_model)
-                trans[k] = T
                 if (T is None):
                     #Return value of None means that wavelenght regime
                     #does not overlap Lyman transmission - continue here
@@ -342,8 +339,7 @@ def fitz(zchi2, redshifts, target, template, nminima=3, archetype=None, use_gpu=
                     prior = prior_on_coeffs(n_nearest, deg_legendre, prior_sigma, ncamera)
             else:
                 prior=None
-            chi2min, coeff, fulltype = archetype.get_best_archetype(target,weights,flux,wflux,dwave,zbest, per_camera, n_nearest, trans=trans, use_gpu=use_gpu, prior=prior)
-            del trans
+            chi2min, coeff, fulltype = archetype.get_best_archetype(target,weights,flux,wflux,dwave,zbest, per_camera, n_nearest, use_gpu=use_gpu, prior=prior)
             subtype = parse_fulltype(fulltype)[1]
 
             archcoeff, legcoeff = split_archetype_coeff(subtype, coeff, ncamera, deg_legendre)
-- 
2.43.0


From 3135d024f3cecc75d265063be88e8df059a05e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 21/43] fix: coadd resolution with the weights left after
 cosmic-ray rejection

---
 py/redrock/targets.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 734eea0..d2c254a 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -297,11 +297,11 @@ class Target(object):
             unweightedflux = None
             weightedflux = None
             weights = None
-            Rdiags = None
             offsets = None
             nspec = 0
             flux=[] # references
             ivar=[] # references
+            Rdata=[] # references
             grad=[] # gradients, copy
             gradvar=[]
             for s in self.spectra:
@@ -310,11 +310,10 @@ class Target(object):
                 current_band = s.band
                 if wave is None :
                     wave = s.wave
-                    Rdiags = s.R.data * s.ivar
                     offsets = s.R.offsets
                 else :
                     assert len(s.wave) == len(wave)
-                    Rdiags += s.R.data * s.ivar
+                Rdata.append(s.R.data)
                 flux.append(s.flux)
                 ivar.append(s.ivar)
 
@@ -367,7 +366,8 @@ class Target(object):
             isbad = (weights == 0)
             flux = weightedflux / (weights + isbad)
             flux[isbad] = unweightedflux[isbad] / nspec
-            Rdiags /= (weights + isbad)
+            # use the weights after cosmic-ray rejection, as for the flux
+            Rdiags = sum(Rx * iv for Rx, iv in zip(Rdata, ivar)) / (weights + isbad)
             nwave = Rdiags.shape[1]
             R = scipy.sparse.dia_matrix((Rdiags, offsets),
                                             shape=(nwave, nwave))
-- 
2.43.0


From bb602bafe7961dcebd91e6e518e96397ba0c9dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 22/43] fix: mask pixels with a poor resolution in uncoadded
 DESI spectra

---
 py/redrock/external/desi.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index 31be1ae..ac6db87 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -28,6 +28,8 @@ from desispec.maskbits import fibermask
 from desispec.io.util import get_tempfilename
 from desispec.io.fibermap import annotate_fibermap
 
+from .. import constants
+
 from ..utils import elapsed, get_mp, distribute_work, getGPUCountMPI
 
 from ..targets import (Spectrum, Target, DistTargets)
@@ -635,6 +637,11 @@ class DistTargetsDESI(DistTargets):
                         for trow in self._target_specs[sfile][t]:
                             dia = Resolution(hdata[trow].astype(np.float64))
                             self._my_data[toff].spectra[tspec_res[t]].R = dia
+                            #- Spectrum masks a poor resolution when it is created
+                            #- with one; coadds do that for the coadded resolution
+                            if not coadd:
+                                badres = np.asarray(dia.sum(axis=1))[:,0] < constants.min_resolution_integral
+                                self._my_data[toff].spectra[tspec_res[t]].ivar[badres] = 0.0
                             #- Coadds replace Rcsr so only compute if not coadding
                             if not coadd and cache_Rcsr:
                                 self._my_data[toff].spectra[tspec_res[t]]._Rcsr = dia.tocsr()
-- 
2.43.0


From df90e6adea40eead4a510ee331926325928d9af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 23/43] fix: rrdesi --model works without --outfile

---
 py/redrock/external/desi.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index ac6db87..ddd40d2 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -1163,7 +1163,7 @@ def rrdesi(options=None, comm=None):
                 write_zscan(args.details, scandata, zfit, clobber=True)
             stop = elapsed(start, "Writing zscan data took", comm=comm)
 
-        if args.outfile:
+        if args.outfile or args.model is not None:
             start = elapsed(None, "", comm=comm)
             if comm_rank == 0:
                 zbest = zfit[zfit['znum'] == 0]
@@ -1193,11 +1193,12 @@ def rrdesi(options=None, comm=None):
                 subtype_len = max(3, max_subtype_len)
                 zbest['SUBTYPE'] = zbest['SUBTYPE'].astype(f'U{subtype_len}')
 
-                write_zbest(args.outfile, zbest,
-                        targets.fibermap, targets.exp_fibermap,
-                        targets.tsnr2,
-                        templates, archetypes=archetypes,
-                        spec_header=targets.header0, secondary_headers=targets.secondary_headers)
+                if args.outfile:
+                    write_zbest(args.outfile, zbest,
+                            targets.fibermap, targets.exp_fibermap,
+                            targets.tsnr2,
+                            templates, archetypes=archetypes,
+                            spec_header=targets.header0, secondary_headers=targets.secondary_headers)
 
             if comm is not None:
                 zbest = comm.bcast(zbest, root=0)
-- 
2.43.0


From 9d86fb66dce39a3efa4f58dc8a66e40b16513c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 24/43] fix: cosmic-ray rejection copes with fully masked
 exposures

---
 py/redrock/targets.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index d2c254a..deb48a1 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -304,6 +304,7 @@ class Target(object):
             Rdata=[] # references
             grad=[] # gradients, copy
             gradvar=[]
+            gradspec=[] # which spectrum each gradient belongs to
             for s in self.spectra:
                 if s.wavehash != key: continue
                 nspec += 1
@@ -317,7 +318,8 @@ class Target(object):
                 flux.append(s.flux)
                 ivar.append(s.ivar)
 
-                if cosmics_nsig > 0 :
+                if cosmics_nsig > 0 and np.any(s.ivar>0) :
+                    gradspec.append(len(ivar)-1)
                     # interpolate over bad measurements
                     # to be able to compute gradient next
                     # to a bad pixel and identify oulier
@@ -348,17 +350,17 @@ class Target(object):
                 # detect outliers by comparing spectra
                 grad=np.array(grad)
                 gradivar=1/np.array(gradvar)
-                nspec=grad.shape[0]
+                ngrad=grad.shape[0]
                 meangrad=np.sum(gradivar*grad,axis=0)/np.sum(gradivar,axis=0)
                 deltagrad=grad-meangrad
-                chi2=np.sum(gradivar*deltagrad**2,axis=0)/(nspec-1)
+                chi2=np.sum(gradivar*deltagrad**2,axis=0)/(ngrad-1)
 
                 jj=np.where(chi2>cosmics_nsig**2)[0]
                 for j in jj :
                     k=np.argmax(gradivar[:,j]*deltagrad[:,j]**2)
                     #k=np.argmax(flux[:,j])
                     #print("masking spec",k,"wave=",wave[j],"flux=",flux[k,j])
-                    ivar[k][j]=0.
+                    ivar[gradspec[k]][j]=0.
 
             unweightedflux = np.sum(flux,axis=0)
             weights        = np.sum(ivar,axis=0)
-- 
2.43.0


From 8e81ba431584e9fe11df33d3faa441c7f7f541bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 25/43] fix: wrap-redrock uses the options that rrdesi and
 rrboss accept

---
 bin/wrap-redrock | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index 767485d..28dd5db 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -319,12 +319,13 @@ def run_redrock(args, comm=None):
         sys.stdout.flush()
 
         if args.datatype == 'desi':
-            cmd = 'rrdesi {}'.format(specfiles[i])
+            cmd = 'rrdesi --infiles {}'.format(specfiles[i])
+            cmd += ' --outfile {} --details {}'.format(rrfiles[i], detailsfiles[i])
         elif args.datatype == 'boss':
             cmd = 'rrboss --spplate {}'.format(specfiles[i])
+            cmd += ' --zbest {} --output {}'.format(rrfiles[i], detailsfiles[i])
 
         cmd += ' --nminima {}'.format(args.nminima)
-        cmd += ' --outfile {} --details {}'.format(rrfiles[i], detailsfiles[i])
         logfile = rrfiles[i].replace('.fits', '.log')
         assert logfile != rrfiles[i]
 
-- 
2.43.0


From 5e555555976eda6ee03be7c9d9dfc96839e5430a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:34 +0000
Subject: [PATCH 26/43] fix: keep masks with their spectrum when a camera has
 no mask extension

---
 py/redrock/external/desi.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index ddd40d2..b5be2cd 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -586,15 +586,16 @@ class DistTargetsDESI(DistTargets):
                 if comm is not None:
                     hdata = comm.bcast(hdata, root=0)
 
-                if hdata is not None:
-                    toff = 0
-                    for t in self._my_targets:
-                        if t in self._target_specs[sfile]:
-                            for trow in self._target_specs[sfile][t]:
+                toff = 0
+                for t in self._my_targets:
+                    if t in self._target_specs[sfile]:
+                        for trow in self._target_specs[sfile][t]:
+                            if hdata is not None:
                                 self._my_data[toff].spectra[tspec_mask[t]]\
                                     .ivar *= (hdata[trow] == 0)
-                                tspec_mask[t] += 1
-                        toff += 1
+                            # also without masks, to stay at the same spectrum
+                            tspec_mask[t] += 1
+                    toff += 1
 
                 extname = "{}_{}".format(b.upper(), "RESOLUTION")
                 hdata = None
-- 
2.43.0


From 2d2031ab62ecdc9d53e8bf85efec1053c9539155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:36 +0000
Subject: [PATCH 27/43] fix: read_zscan files archetype fits under the template
 that was scanned

---
 py/redrock/results.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/py/redrock/results.py b/py/redrock/results.py
index ebf6d80..1cde976 100644
--- a/py/redrock/results.py
+++ b/py/redrock/results.py
@@ -164,6 +164,14 @@ def read_zscan(filename, select_targetids=None, upper=False, nozfit=False):
             spectype_col = 'spectype'
             subtype_col = 'subtype'
 
+        #- archetype fits: SPECTYPE and SUBTYPE name the archetype while
+        #- PCA_SPECTYPE and PCA_SUBTYPE name the template that was scanned
+        pca_cols = ['pca_spectype', 'pca_subtype']
+        if upper:
+            pca_cols = ['PCA_SPECTYPE', 'PCA_SUBTYPE']
+        if pca_cols[0] in zfit.colnames and pca_cols[1] in zfit.colnames:
+            spectype_col, subtype_col = pca_cols
+
         for zfit_tid in zfit.group_by( (targetid_col, spectype_col, subtype_col) ).groups:
             targetid = zfit_tid[targetid_col][0]
             spectype = zfit_tid[spectype_col][0]
-- 
2.43.0


From cccfa796af88e60478499d2ded594db22b1e20a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:36 +0000
Subject: [PATCH 28/43] fix: save per-camera archetype coefficients in sorted
 camera order

The sorted camera order was lost because the keys were created in the order of
the spectra first; eval_model reads the blocks in sorted order.
---
 py/redrock/zscan.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/redrock/zscan.py b/py/redrock/zscan.py
index 6f0cd42..d18e5a7 100644
--- a/py/redrock/zscan.py
+++ b/py/redrock/zscan.py
@@ -275,14 +275,14 @@ def per_camera_coeff_with_least_square_batch(target, tdata, weights, flux, wflux
     ncam = len(bands)
     nbasis = n_nbh+nleg*ncam # n_nbh : for actual physical archetype(s), nleg: number of legendre polynomials, ncamera: number of cameras
 
+    new_bands = sorted(bands) # saves as correct order
+
     ret_zcoeff = {}
     ret_zcoeff['alpha'] = []
     if nleg>0:
-        for b in bands: # bands as save in targets object
+        for b in new_bands: # the order of the keys is the order of the coefficients
             ret_zcoeff[b] = []
 
-    new_bands = sorted(bands) # saves as correct order
-
     #Setup dict of solver args to pass bounds to solver
     method = method.upper()
     solver_args = dict()
-- 
2.43.0


From 823b0defac58c8af812d86bcd507c6e1afeb57ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:36 +0000
Subject: [PATCH 29/43] fix: rrplot uses the Legendre coefficients of each
 camera

Archetype fits per camera have one row of coefficients per camera; passing all
rows to Archetype.eval failed.
---
 py/redrock/plotspec.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/py/redrock/plotspec.py b/py/redrock/plotspec.py
index ffdc60e..12dd19c 100644
--- a/py/redrock/plotspec.py
+++ b/py/redrock/plotspec.py
@@ -164,7 +164,11 @@ class PlotSpec(object):
         specs_to_read = target.spectra
         for spec in specs_to_read:
             if self.archetypes:
-                mx = tp.eval(zz['subtype'], zz['coeff'][0:zz['ncoeff']], spec.wave, zz['z'], legcoeff=zz['legcoeff'])
+                legcoeff = zz['legcoeff']
+                if legcoeff.ndim > 1:
+                    # per-camera coefficients are saved in sorted band order
+                    legcoeff = legcoeff[sorted(target.bands).index(spec.band)]
+                mx = tp.eval(zz['subtype'], zz['coeff'][0:zz['ncoeff']], spec.wave, zz['z'], legcoeff=legcoeff)
             else:
                 mx = tp.eval(coeff[0:tp.nbasis], spec.wave, zz['z']) * (1+zz['z'])
             model = spec.R.dot(mx)
-- 
2.43.0


From 05fbe52d82e8e01b2cd05a516177ad254f105b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:34 +0000
Subject: [PATCH 30/43] fix: drop the GPU copy of the Legendre polynomials when
 their degree changes

---
 py/redrock/targets.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index deb48a1..6b2383e 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -258,6 +258,7 @@ class Target(object):
         dwave = { s.wavehash:s.wave for s in self.spectra }
         self._legendre = { hs:np.array([scipy.special.legendre(i)(reduced_wavelength(w)) for i in range(nleg)]) for hs, w in dwave.items() }
         self.nleg = nleg
+        self._gpulegendre = None #any GPU copy is of the previous polynomials
         if (use_gpu):
             import cupy as cp
             self._gpulegendre = { hs:cp.asarray(self._legendre[hs]) for hs in self._legendre }
-- 
2.43.0


From 9a79987379eb5123364d228b158f7e2445054b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:16 +0000
Subject: [PATCH 31/43] fix: coefficients of a replaced minimum are those of
 the redshift it reports

When the vertex of the parabola lies outside the fine redshift grid, z and
chi2 were replaced by those of the lowest sampled point but coeff (and the
PCA coefficients of archetype fits) stayed those of the vertex, or zeros.
---
 py/redrock/fitz.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/redrock/fitz.py b/py/redrock/fitz.py
index 678a2b6..2afc4a3 100644
--- a/py/redrock/fitz.py
+++ b/py/redrock/fitz.py
@@ -309,6 +309,8 @@ def fitz(zchi2, redshifts, target, template, nminima=3, archetype=None, use_gpu=
             imin = np.where(zzchi2 == np.min(zzchi2))[0][0]
             zbest = zz[imin]
             chi2min = zzchi2[imin]
+            coeff = zzcoeff[imin]
+            pca_coeff = zzcoeff[imin]
 
         #- Initial minimum or best fit too close to edge of redshift range
         if zbest < redshifts[1] or zbest > redshifts[-2]:
-- 
2.43.0


From 457c8417c83990d3d9fc6c9dd803c256765647ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:48 +0000
Subject: [PATCH 32/43] fix: read_zscan reads details files whose targets
 without data were filled as GALAXY

A target without data is stored as spectype GALAXY; if no such template was
scanned read_zscan stopped with a KeyError.
---
 py/redrock/results.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py/redrock/results.py b/py/redrock/results.py
index 1cde976..c80511c 100644
--- a/py/redrock/results.py
+++ b/py/redrock/results.py
@@ -177,7 +177,10 @@ def read_zscan(filename, select_targetids=None, upper=False, nozfit=False):
             spectype = zfit_tid[spectype_col][0]
             subtype = zfit_tid[subtype_col][0]
             fulltype = make_fulltype(spectype, subtype)
-            zscan[targetid][fulltype]['zfit'] = zfit_tid
+            #- rows of targets without data are filled as GALAXY, which is not
+            #- necessarily one of the templates that were scanned
+            if fulltype in zscan[targetid]:
+                zscan[targetid][fulltype]['zfit'] = zfit_tid
 
         return zscan, zfit
 
-- 
2.43.0


From 19189ad2b730137fc83b989d5fbcd86f47ac9436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:34 +0000
Subject: [PATCH 33/43] fix: DistTargetsCopy only needs the targets on the root
 process

Documented to distribute targets located on one process, it looped over the
local list with a collective call in the loop and distributed the local list:
it hung when the other processes passed an empty list.
---
 py/redrock/targets.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 6b2383e..ab0f2ec 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -563,9 +563,14 @@ class DistTargetsCopy(DistTargets):
             self._alltargetids = comm.bcast(self._alltargetids, root=root)
 
         # Distribute the targets among process weighted by the amount of work
-        # to do for each target.
+        # to do for each target.  Only the root process needs to have them.
 
-        self._proc_targets = distribute_targets(targets, comm_size)
+        self._proc_targets = None
+        if comm is None or comm_rank == root:
+            self._proc_targets = distribute_targets(targets, comm_size)
+
+        if comm is not None:
+            self._proc_targets = comm.bcast(self._proc_targets, root=root)
 
         self._my_targets = self._proc_targets[comm_rank]
 
@@ -578,7 +583,8 @@ class DistTargetsCopy(DistTargets):
             self._my_data = [ tbuf[x] for x in self._my_targets ]
         else:
             tbuf = dict()
-            for tg in targets:
+            for i in range(len(self._alltargetids)):
+                tg = targets[i] if comm_rank == root else None
                 recv = comm.bcast(tg, root=root)
                 if recv.id in self._my_targets:
                     tbuf[recv.id] = recv
-- 
2.43.0


From 7bb44a44605ebfc816bfaff3bbbf0537cc2945e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:18 +0000
Subject: [PATCH 34/43] fix: coeff column is wide enough for the nearest
 archetypes

Without per-camera polynomials the column had as many entries as the largest
template has coefficients; with more nearest archetypes than that zfind stopped
with a ValueError.
---
 py/redrock/zfind.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index ea86599..2859afd 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -703,6 +703,9 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
         else:
             ntarg, ncoeff = allzfit['coeff'].shape
 
+        #- more nearest archetypes than any template has coefficients
+        maxcoeff = max(maxcoeff, ncoeff)
+
         if ncoeff != maxcoeff:
             coeff = np.zeros((ntarg, maxcoeff), dtype=allzfit['coeff'].dtype)
             coeff[:,0:ncoeff] = allzfit['coeff']
-- 
2.43.0


From f8d4aa4b6fa5895b383d53979df9d41e77fbe33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:58 +0000
Subject: [PATCH 35/43] fix: rebin_template does not keep the edge limits of
 the previous spectrum

---
 py/redrock/rebin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/redrock/rebin.py b/py/redrock/rebin.py
index caa1b5c..0730d06 100644
--- a/py/redrock/rebin.py
+++ b/py/redrock/rebin.py
@@ -503,9 +503,9 @@ def rebin_template(template, myz, dwave=None, dedges=None, use_gpu=False, xmin=N
                 result[hs] = trapz_rebin(template.wave, template.flux, xnew=wave, myz=myz, use_gpu=use_gpu, xmin=xmin, xmax=xmax)
     elif dedges is not None:
         #Handle the case where dedges is passed because edges is already computed
-        minedge = None
-        maxedge = None
         for hs, edges in dedges.items():
+            minedge = None
+            maxedge = None
             #Check if edges is a 1-d array or a tuple also containing scalar min/max values
             if type(edges) is tuple:
                 (edges, minedge, maxedge) = edges
-- 
2.43.0


From c7655df7f03c528212154e26d71127280d1e6050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:19 +0000
Subject: [PATCH 36/43] fix: archetype rebinning does not keep the edge limits
 of the previous spectrum

---
 py/redrock/archetypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/redrock/archetypes.py b/py/redrock/archetypes.py
index 9adddf3..e815d34 100644
--- a/py/redrock/archetypes.py
+++ b/py/redrock/archetypes.py
@@ -152,12 +152,12 @@ class Archetype():
 
         if (indx is not None):
             flux = flux[indx]
-        minedge = None
-        maxedge = None
         result = dict()
         if (trapz and use_gpu and dedges is not None):
             #Use GPU mode with bin edges already calculated
             for hs, edges in dedges.items():
+                minedge = None
+                maxedge = None
                 #Check if edges is a 1-d array or a tuple also containing scalar min/max values
                 if type(edges) is tuple:
                     (edges, minedge, maxedge) = edges
-- 
2.43.0


From b7bec317b73692fdfe038cd458d2c0c1d5956aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:34 +0000
Subject: [PATCH 37/43] fix: rrplot draws the fitted model without a factor
 (1+z)

---
 py/redrock/plotspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/plotspec.py b/py/redrock/plotspec.py
index 12dd19c..4e12e90 100644
--- a/py/redrock/plotspec.py
+++ b/py/redrock/plotspec.py
@@ -170,7 +170,7 @@ class PlotSpec(object):
                     legcoeff = legcoeff[sorted(target.bands).index(spec.band)]
                 mx = tp.eval(zz['subtype'], zz['coeff'][0:zz['ncoeff']], spec.wave, zz['z'], legcoeff=legcoeff)
             else:
-                mx = tp.eval(coeff[0:tp.nbasis], spec.wave, zz['z']) * (1+zz['z'])
+                mx = tp.eval(coeff[0:tp.nbasis], spec.wave, zz['z'])
             model = spec.R.dot(mx)
             flux = spec.flux.copy()
             isbad = (spec.ivar == 0)
-- 
2.43.0


From 48e808e64682088a253956c1719472e28bd197e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:34 +0000
Subject: [PATCH 38/43] fix: rrplot reads all the spectra files it is given

---
 bin/rrplot | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bin/rrplot b/bin/rrplot
index 692a525..3f60e13 100755
--- a/bin/rrplot
+++ b/bin/rrplot
@@ -56,7 +56,9 @@ else:
 #- Data
 if args.datatype=='desi':
     from redrock.external import desi
-    targets = desi.DistTargetsDESI(args.specfile[0], targetids=targetids, coadd=(not args.allspec))._my_data
+    # a single name may be a pattern that matches several files
+    specfile = args.specfile[0] if len(args.specfile) == 1 else args.specfile
+    targets = desi.DistTargetsDESI(specfile, targetids=targetids, coadd=(not args.allspec))._my_data
 elif args.datatype=='boss':
     from redrock.external import boss
     targets, targetids = boss.read_spectra(args.specfile, targetids=targetids, coadd=(not args.allspec))
-- 
2.43.0


From 248c7e592dbee87dee02fb7e4b7c906e04d26ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:04 +0000
Subject: [PATCH 39/43] fix: template programs write their files with the
 keyword astropy accepts

---
 bin/rrqsotemplate    | 2 +-
 bin/rrstarwdtemplate | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/rrqsotemplate b/bin/rrqsotemplate
index a9e45c6..18efec8 100755
--- a/bin/rrqsotemplate
+++ b/bin/rrqsotemplate
@@ -47,7 +47,7 @@ hdus.append(fits.PrimaryHDU(eigenboss, header=header))
 # c = np.zeros((10, eigenboss.shape[0]))
 # hdus.append(fits.ImageHDU(c, name='ARCHETYPE_COEFF'))
 
-hdus.writeto(opts.outfile, clobber=True)
+hdus.writeto(opts.outfile, overwrite=True)
 print('RR: Wrote '+opts.outfile)
 
 
diff --git a/bin/rrstarwdtemplate b/bin/rrstarwdtemplate
index 00fe6f5..75c5a29 100755
--- a/bin/rrstarwdtemplate
+++ b/bin/rrstarwdtemplate
@@ -90,5 +90,5 @@ hdus.append(fits.PrimaryHDU(model.eigvec, header=header))
 hdus.append(fits.ImageHDU(model.coeff, name='ARCHETYPE_COEFF'))
 
 outfile = outbase + '-WD' + outext
-hdus.writeto(outfile, clobber=True)
+hdus.writeto(outfile, overwrite=True)
 print('RR: Wrote '+outfile)
-- 
2.43.0


From 28daf9d00b554d45903bdbdf11f174b92d9e9db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:29 +0000
Subject: [PATCH 40/43] fix: wrap-redrock ends normally if all spectra files
 are already processed

---
 bin/wrap-redrock | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index 28dd5db..c9a8db9 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -307,6 +307,10 @@ def run_redrock(args, comm=None):
         groups = comm.bcast(groups, root=0)
         specfiles = comm.bcast(specfiles, root=0)
 
+    #- plan returns no groups if there is nothing left to do
+    if len(specfiles) == 0:
+        return
+
     assert len(groups) == size
     assert len(np.concatenate(groups)) == len(specfiles)
 
-- 
2.43.0


From 2409dce3672c5c0346294a1a4094f331236c0aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:29 +0000
Subject: [PATCH 41/43] fix: wrap-redrock --plan passes all options on to the
 batch job

---
 bin/wrap-redrock | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index c9a8db9..d47dc00 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -281,6 +281,10 @@ def plan(args, comm=None):
             os.path.abspath(__file__), args.mp, args.reduxdir)
         if args.outdir is not None:
             rrcmd += ' --outdir {}'.format(os.path.abspath(args.outdir))
+        if args.archetypes is not None:
+            rrcmd += ' --archetypes {}'.format(args.archetypes)
+        rrcmd += ' --datatype {} --prefix {} --nminima {}'.format(
+            args.datatype, args.prefix, args.nminima)
         print('srun -N $nodes -n $nodes -c {} {}'.format(maxproc, rrcmd))
 
     return specfiles, groups, grouptimes
-- 
2.43.0


From 92d354f8d49d4fe2d435b353f8811453fe624df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:24 +0000
Subject: [PATCH 42/43] fix: Inoue14 Lyman continuum forest optical depth used
 the z>=1.2 formula below z=1.2, and none at exactly 5.7 times the limit

---
 py/redrock/igm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/redrock/igm.py b/py/redrock/igm.py
index 48afdfa..69f33c3 100644
--- a/py/redrock/igm.py
+++ b/py/redrock/igm.py
@@ -212,13 +212,13 @@ class Inoue14(object):
         y0 = x0 & (zS[:,None] < z1LAF)
         tLCLAF_value[y0] = 0.3248 * (power(lobs[y0]/lamL, 1.2) - (power(1.0+zS[:,None], -9e-1)*y0)[y0] * power(lobs[y0]/lamL, 2.1))
 
-        y0 = x0 & (zS[:,None] < z2LAF)
+        y0 = x0 & (zS[:,None] >= z1LAF) & (zS[:,None] < z2LAF)
         x1 = lobs >= lamL*(1+z1LAF)
         tLCLAF_value[y0 & x1] = 2.545e-2 * ((power(1.0+zS[:,None], 1.6)*y0)[y0 & x1] * power(lobs[y0 & x1]/lamL, 2.1) - power(lobs[y0 & x1]/lamL, 3.7))
         tLCLAF_value[y0 & ~x1] = 2.545e-2 * (power(1.0+zS[:,None], 1.6)*y0)[y0 & ~x1] * power(lobs[y0 & ~x1]/lamL, 2.1) + 0.3248 * power(lobs[y0 & ~x1]/lamL, 1.2) - 0.2496 * power(lobs[y0 & ~x1]/lamL, 2.1)
 
         y0 = x0 & (zS[:,None] >= z2LAF)
-        x1 = lobs > lamL*(1.+z2LAF)
+        x1 = lobs >= lamL*(1.+z2LAF)
         x2 = (lobs >= lamL*(1.+z1LAF)) & (lobs < lamL*(1.+z2LAF))
         x3 = lobs < lamL*(1.+z1LAF)
 
-- 
2.43.0


From b23b96bd14f2393decb9fd02f9332a425f8abcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:32 +0000
Subject: [PATCH 43/43] fix: allow more MPI processes than redshifts of a
 template

DistTemplate gave such processes an empty slice of the redshift grid, and
rebin_template and transmission_Lyman stop on it with 'zero-size array to
reduction operation'.  Give them an empty piece instead, as is done for
non-GPU processes in GPU mode.
---
 py/redrock/templates.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py/redrock/templates.py b/py/redrock/templates.py
index 9f10441..7c4bab0 100644
--- a/py/redrock/templates.py
+++ b/py/redrock/templates.py
@@ -575,6 +575,11 @@ class DistTemplate(object):
             self._distredshifts = np.array_split(self._template.redshifts,
                 self._comm_size)
             myz = self._distredshifts[self._comm_rank]
+            if len(myz) == 0:
+                #More processes than redshifts; create empty _piece
+                data = dict()
+                self._piece = DistTemplatePiece(self._comm_rank, myz, data)
+                return
 
         # In the case of not using MPI (comm == None), one process is rebinning
         # all the templates.  In that scenario, use multiprocessing
-- 
2.43.0

