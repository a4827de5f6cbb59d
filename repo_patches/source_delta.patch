From 0c6080cf9b5fb01dcea8d36250d82579965bea59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:21 +0000
Subject: [PATCH 01/72] fix: wrap new data about the supplied location and
 scale

wrap_univ recomputed median and mad from the data it was handed, so
Wrapper.predict ignored the training estimates (and a single new case
wrapped to nan). Constant columns no longer divide by zero.
---
 src/direpack/preprocessing/_preproc_utilities.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/direpack/preprocessing/_preproc_utilities.py b/src/direpack/preprocessing/_preproc_utilities.py
index 2d60438..39dd41d 100644
--- a/src/direpack/preprocessing/_preproc_utilities.py
+++ b/src/direpack/preprocessing/_preproc_utilities.py
@@ -333,8 +333,11 @@ def wrap_univ(dd, scale=False, locX=None, scaleX=None):
     if dd.dtype == "O":
         dd = dd.astype("float")
     if scale:
-        locX = median(dd)
-        scaleX = mad(dd)
+        if locX is None:
+            locX = median(dd)
+        if scaleX is None:
+            scaleX = mad(dd)
+        scaleX = _handle_zeros_in_scale(scaleX)
         xi = (dd - locX) / scaleX
     else:
         xi = np.array(dd)
-- 
2.43.0


From 0ff05edc673705dc61a86b2fbfdadaa5f59f1dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:21 +0000
Subject: [PATCH 02/72] fix: generalized spatial sign covariance is a matrix
 product

Xgss.T*Xgss is elementwise for ndarrays and fails to broadcast unless n == p.
Also accept the radial function by name, as documented.
---
 src/direpack/preprocessing/gsspp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/direpack/preprocessing/gsspp.py b/src/direpack/preprocessing/gsspp.py
index baf33bb..0154a89 100644
--- a/src/direpack/preprocessing/gsspp.py
+++ b/src/direpack/preprocessing/gsspp.py
@@ -147,12 +147,15 @@ def gen_ss_covmat(X,center='kstepLTS',fun=linear_redescending):
     Outputs: the generalized spatial sign covariance matrix
     """    
     
+    if type(fun) is str: 
+        fun = eval(fun)
+
     X = _check_input(X)  
     rc = VersatileScaler(center=center, scale='None')
     n,p = X.shape
     Xm = rc.fit_transform(X)
     Xgss = _gsspp(Xm,p,n,fun=fun)
-    return(Xgss.T*Xgss/n)
+    return(np.matmul(Xgss.T,Xgss)/n)
     
     
 
-- 
2.43.0


From f9e226b6a20990b9795e8855c0c73e2ed5fbe3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:22 +0000
Subject: [PATCH 03/72] fix: gen_ss_pp accepts center='None'

The name was evaluated to None before it was compared to 'None', and None
was then called. versatile_scale resolves names itself.
---
 src/direpack/preprocessing/gsspp.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/direpack/preprocessing/gsspp.py b/src/direpack/preprocessing/gsspp.py
index 0154a89..2d082dd 100644
--- a/src/direpack/preprocessing/gsspp.py
+++ b/src/direpack/preprocessing/gsspp.py
@@ -103,9 +103,6 @@ def gen_ss_pp(X,center='l1median',fun='linear_redescending'):
     Outputs: the pre-processed data 
     """    
     
-    if type(center) is str: 
-        center = eval(center)
-            
     if type(fun) is str: 
         fun = eval(fun)
     
-- 
2.43.0


From 4966d0b0277e008f80550e94e0b4f2aa7f1f4b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:22 +0000
Subject: [PATCH 04/72] fix: inverse_transform undoes transform for constant
 columns

transform divides zero scale columns by one; inverse_transform multiplied
them by zero.
---
 src/direpack/preprocessing/robcent.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/direpack/preprocessing/robcent.py b/src/direpack/preprocessing/robcent.py
index bc6c176..3a1ae96 100644
--- a/src/direpack/preprocessing/robcent.py
+++ b/src/direpack/preprocessing/robcent.py
@@ -58,7 +58,11 @@ from ..utils.utils import (
     _check_input,
 )
 from ._preproc_utilities import *
-from ._preproc_utilities import _check_trimming, wrap_univ
+from ._preproc_utilities import (
+    _check_trimming,
+    _handle_zeros_in_scale,
+    wrap_univ,
+)
 
 __all__ = ["VersatileScaler", "robcent", "versatile_scale", "Wrapper", "wrap"]
 
@@ -194,7 +198,9 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
         else:
             Xs = self.datas_
 
-        return np.multiply(Xs, self.scale_) + self.center_
+        return (
+            np.multiply(Xs, _handle_zeros_in_scale(self.scale_)) + self.center_
+        )
 
 
 # For backwards compatibility
-- 
2.43.0


From 838e9be37b0ad804685b1238159985e71b97367d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:44 +0000
Subject: [PATCH 05/72] fix: preprocessing transformers work in scikit-learn
 pipelines

fit returned None and neither fit nor fit_transform accepted y, so a
Pipeline step failed although the classes are documented as compatible.
---
 src/direpack/preprocessing/gsspp.py   |  5 +++--
 src/direpack/preprocessing/robcent.py | 12 ++++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/direpack/preprocessing/gsspp.py b/src/direpack/preprocessing/gsspp.py
index 2d082dd..a71c9c7 100644
--- a/src/direpack/preprocessing/gsspp.py
+++ b/src/direpack/preprocessing/gsspp.py
@@ -49,7 +49,7 @@ class GenSpatialSignPreProcessor(TransformerMixin,BaseEstimator):
         self.center = center
         self.fun = fun 
         
-    def fit(self,X): 
+    def fit(self,X,y=None): 
         
         """ 
         Calculate and store generalized spatial signs
@@ -67,6 +67,7 @@ class GenSpatialSignPreProcessor(TransformerMixin,BaseEstimator):
         setattr(self,'gss_',gss_)
         setattr(self,'Xm_',Xm)
         setattr(self,'centring_',vs)
+        return(self)
         
     def transform(self,X):
         
@@ -79,7 +80,7 @@ class GenSpatialSignPreProcessor(TransformerMixin,BaseEstimator):
         setattr(self,'X_gsspp_',Xgss)
         return(Xgss)
 
-    def fit_transform(self,X): 
+    def fit_transform(self,X,y=None): 
 
         self.fit(X)
         self.transform(X)
diff --git a/src/direpack/preprocessing/robcent.py b/src/direpack/preprocessing/robcent.py
index 3a1ae96..2df7f8a 100644
--- a/src/direpack/preprocessing/robcent.py
+++ b/src/direpack/preprocessing/robcent.py
@@ -105,7 +105,7 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
         self.scale = scale
         self.trimming = trimming
 
-    def fit(self, X):
+    def fit(self, X, y=None):
         """
         Estimate location and scale, store these in the class object.
         Trimming fraction can be provided as keyword argument.
@@ -152,6 +152,8 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
         # sklearn standard
         setattr(self, "scale_", s)
 
+        return self
+
     def transform(self, X):
         """
         Center and/or scale training data to pre-estimated location and scale
@@ -177,7 +179,7 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
 
         return Xns
 
-    def fit_transform(self, X):
+    def fit_transform(self, X, y=None):
         """
         Estimate center and scale for training data and scale these data
         """
@@ -248,7 +250,7 @@ class Wrapper(_BaseComposition, TransformerMixin, BaseEstimator):
         self.scale = "mad"
         self.trimming = 0
 
-    def fit(self, X):
+    def fit(self, X, y=None):
         """
         Estimate location and scale, store these in the class object.
         Trimming fraction can be provided as keyword argument.
@@ -295,6 +297,8 @@ class Wrapper(_BaseComposition, TransformerMixin, BaseEstimator):
         # sklearn standard
         setattr(self, "scale_", s)
 
+        return self
+
     def transform(self, X):
         """
         Project data points to their wrapped counterparts
@@ -320,7 +324,7 @@ class Wrapper(_BaseComposition, TransformerMixin, BaseEstimator):
 
         return Xnw
 
-    def fit_transform(self, X):
+    def fit_transform(self, X, y=None):
         """
         Estimate center and scale for training data wrap these data
         """
-- 
2.43.0


From 54dcc5f933161ce741b634268291420cce20ee67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:44 +0000
Subject: [PATCH 06/72] fix: scalers keep a single new case a row

_check_input turned a 1 x p case into a p x 1 column, which was then scaled
by the first column's location and scale.
---
 src/direpack/preprocessing/robcent.py | 10 +++++-----
 src/direpack/utils/utils.py           |  5 +++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/direpack/preprocessing/robcent.py b/src/direpack/preprocessing/robcent.py
index 2df7f8a..e983a05 100644
--- a/src/direpack/preprocessing/robcent.py
+++ b/src/direpack/preprocessing/robcent.py
@@ -159,8 +159,8 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
         Center and/or scale training data to pre-estimated location and scale
         """
 
-        X = _check_input(X)
         check_is_fitted(self, ["center_", "scale_"])
+        X = _check_input(X, np.size(self.center_))
 
         Xs = scale_data(X, self.center_, self.scale_)
         setattr(self, "datas_", Xs)
@@ -173,7 +173,7 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
         Number of columns needs to match.
         """
 
-        Xn = _check_input(Xn)
+        Xn = _check_input(Xn, np.size(self.col_loc_))
         Xns = scale_data(Xn, self.col_loc_, self.col_sca_)
         setattr(self, "datans_", Xns)
 
@@ -196,7 +196,7 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
 
         check_is_fitted(self, ["center_", "scale_"])
         if Xs is not None:
-            Xs = _check_input(Xs)
+            Xs = _check_input(Xs, np.size(self.center_))
         else:
             Xs = self.datas_
 
@@ -304,8 +304,8 @@ class Wrapper(_BaseComposition, TransformerMixin, BaseEstimator):
         Project data points to their wrapped counterparts
         """
 
-        X = _check_input(X)
         check_is_fitted(self, ["center_", "scale_"])
+        X = _check_input(X, np.size(self.center_))
 
         Xw = wrap(X, self.center_, self.scale_)
         setattr(self, "dataw_", Xw)
@@ -318,7 +318,7 @@ class Wrapper(_BaseComposition, TransformerMixin, BaseEstimator):
         Number of columns needs to match.
         """
 
-        Xn = _check_input(Xn)
+        Xn = _check_input(Xn, np.size(self.col_loc_))
         Xnw = wrap(Xn, self.col_loc_, self.col_sca_)
         setattr(self, "datanw_", Xnw)
 
diff --git a/src/direpack/utils/utils.py b/src/direpack/utils/utils.py
index 4f42933..a0637e5 100644
--- a/src/direpack/utils/utils.py
+++ b/src/direpack/utils/utils.py
@@ -61,7 +61,7 @@ def _predict_check_input(Xn):
     return (n, p, Xn)
 
 
-def _check_input(X):
+def _check_input(X, n_cols=None):
 
     if(type(X) in (np.matrix, ps.core.frame.DataFrame, ps.core.series.Series)):
         X = np.array(X)
@@ -75,7 +75,8 @@ def _check_input(X):
     n, p = X.shape
 
     if n == 1:
-        if p >= 2:
+        # a single new case for a model with p columns is a row already
+        if p >= 2 and p != n_cols:
             X = X.reshape((-1, 1))
     return(X)
 
-- 
2.43.0


From e330f3ad8c5ccb1af219a72eb7aad1b0fc836242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:42 +0000
Subject: [PATCH 07/72] fix: fitting a moment leaves the centring parameter
 alone

std, skew, kurt, cos, cok and M3 overwrote self.center with 'mean', so a
later fit of the same object with another mode ignored center='median'.
---
 src/direpack/dicomo/dicomo.py | 41 ++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 8004edb..d7550b3 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -141,6 +141,7 @@ class dicomo(_BaseComposition,BaseEstimator):
         else:
             order = kwargs.get('order')
             
+        center = self.center
         if self.mode == 'var':
             mode = 'mom' 
             order=2
@@ -148,17 +149,17 @@ class dicomo(_BaseComposition,BaseEstimator):
             mode = 'com'
             order=2
         elif self.mode == 'std':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'mom'
             order=2
             num_power = 0.5
         elif self.mode == 'skew':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'mom'
             order = 3
             num_power = 1.5
         elif self.mode == 'kurt':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'mom'
             order = 4
             num_power = 2
@@ -167,7 +168,7 @@ class dicomo(_BaseComposition,BaseEstimator):
             else:
                 Fisher = kwargs.get('Fisher')
         elif self.mode == 'cos':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'com'
             order = 3
             if 'standardized' not in kwargs:
@@ -175,7 +176,7 @@ class dicomo(_BaseComposition,BaseEstimator):
             else:
                 standardized = kwargs.get('standardized')
         elif self.mode == 'M3':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'com'
             order = 3
             if 'standardized' not in kwargs:
@@ -183,7 +184,7 @@ class dicomo(_BaseComposition,BaseEstimator):
             else:
                 standardized = kwargs.get('standardized')
         elif self.mode == 'cok':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'com'
             order = 4
             if 'standardized' not in kwargs:
@@ -217,7 +218,7 @@ class dicomo(_BaseComposition,BaseEstimator):
         if n==0:
             raise(MyException('Please feed data with length > 0'))
             
-        if self.center == 'median':
+        if center == 'median':
             locest = np.median
         else:
             locest = trim_mean
@@ -318,13 +319,13 @@ class dicomo(_BaseComposition,BaseEstimator):
                     if n1!=n:
                         raise(MyException('Please feed x and y data of equal length')) 
                     if (mode in ['mdd','mdc']):
-                        como=np.sqrt(difference_divergence(x,y,center=self.center,trimming=trimming,biascorr=biascorr))
+                        como=np.sqrt(difference_divergence(x,y,center=center,trimming=trimming,biascorr=biascorr))
                         self.co_moment_ = como
                         if mode=='mdd':
                             self.moment_ = como 
                         else:
-                            xmom=difference_divergence(x,x,center=self.center,trimming=trimming,biascorr=biascorr)
-                            ymom=difference_divergence(y,y,center=self.center,trimming=trimming,biascorr=biascorr)
+                            xmom=difference_divergence(x,x,center=center,trimming=trimming,biascorr=biascorr)
+                            ymom=difference_divergence(y,y,center=center,trimming=trimming,biascorr=biascorr)
                             self.x_moment_ = xmom
                             self.y_moment_ = ymom
                             mode = 'corr'
@@ -332,7 +333,7 @@ class dicomo(_BaseComposition,BaseEstimator):
                     else:
                         dmy, n2 = distance_matrix_centered(y,biascorr=biascorr,
                                                    trimming=trimming,
-                                                   center=self.center,
+                                                   center=center,
                                                    dmetric=dmetric) 
                         bcov_res=Ball.bcov_test(x,y,num_permutations=0)[0]
                         self.moment_ = bcov_res
@@ -340,7 +341,7 @@ class dicomo(_BaseComposition,BaseEstimator):
                 
                 
             
-            elif (calcmode=='fast' and self.center =='mean' and trimming == 0 and order==2):
+            elif (calcmode=='fast' and center =='mean' and trimming == 0 and order==2):
                 if mode != 'com':
                     if biascorr:
                         xmom = np.sqrt(dc.u_distance_covariance_sqr(x,x))
@@ -373,18 +374,18 @@ class dicomo(_BaseComposition,BaseEstimator):
             else:
                 dmx, n1 = distance_matrix_centered(x,biascorr=biascorr,
                                                    trimming=trimming,
-                                                   center=self.center,
+                                                   center=center,
                                                    dmetric=dmetric)
                 
                 # Variance
                 if mode!='com':
                     
-                    xmom = distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=order,option=option)
+                    xmom = distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=order,option=option)
                         
                     self.x_moment_ = xmom
                     
                     if self.mode in ('std','skew','kurt'):
-                        x2mom =distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=2,option=option)
+                        x2mom =distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=2,option=option)
                         xmom /= x2mom**num_power
                         
                     if mode=='mom':
@@ -404,10 +405,10 @@ class dicomo(_BaseComposition,BaseEstimator):
                     
                     dmy, n2 = distance_matrix_centered(y,biascorr=biascorr,
                                                    trimming=trimming,
-                                                   center=self.center,
+                                                   center=center,
                                                    dmetric=dmetric)
                     
-                    como = distance_moment(dmx,dmy,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=order,option=option)
+                    como = distance_moment(dmx,dmy,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=order,option=option)
                     
                     self.co_moment_ = como
                     
@@ -415,14 +416,14 @@ class dicomo(_BaseComposition,BaseEstimator):
                         self.moment_ = como
                         
                     if self.mode in ('cok','cos'):
-                        x2sd = distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=2,option=option)
+                        x2sd = distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=2,option=option)
                         x2sd = np.sqrt(x2sd)
-                        y2sd = distance_moment(dmy,dmy,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=2,option=option)
+                        y2sd = distance_moment(dmy,dmy,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=2,option=option)
                         y2sd = np.sqrt(y2sd)
                     
                     if mode in ['corr','continuum','cok','cos']:
                         
-                        ymom = distance_moment(dmy,dmy,n1=n,biascorr=biascorr,center=self.center,trimming=trimming,order=order,option=option)
+                        ymom = distance_moment(dmy,dmy,n1=n,biascorr=biascorr,center=center,trimming=trimming,order=order,option=option)
                         self.y_moment_ = ymom
                     
         if mode == 'corr': 
-- 
2.43.0


From 4397ec9ff31a17b1242f51703d3aa9a2d45706e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:42 +0000
Subject: [PATCH 08/72] fix: bias corrected standard deviation is the root of
 the corrected variance

It was the corrected variance divided by the uncorrected deviation.
---
 src/direpack/dicomo/dicomo.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index d7550b3..2750138 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -237,7 +237,10 @@ class dicomo(_BaseComposition,BaseEstimator):
                 
                 if self.mode in ('std','skew','kurt'):
                     x2mom = trim_mom(x,x,locest,2,trimming,option,False)
-                    xmom /= (x2mom**num_power) 
+                    if self.mode == 'std':
+                        xmom = np.sqrt(xmom)
+                    else:
+                        xmom /= (x2mom**num_power) 
                     if biascorr:
                         if self.mode == 'skew':
                             xmom *= (ntrim-1)**2
-- 
2.43.0


From e752aefca3e53ba855c6d2f465e923f3f2da10ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:42 +0000
Subject: [PATCH 09/72] fix: bias corrected higher moment agrees with the
 co-moment of x with itself

The factor n applied to co-moments of order three and more was missing for
mode='mom', which shrank the moment by a factor n.
---
 src/direpack/dicomo/dicomo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 2750138..d551c73 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -251,6 +251,9 @@ class dicomo(_BaseComposition,BaseEstimator):
                             if not Fisher:
                                 xmom += 3
                 
+                elif (biascorr and (order > 2) and mode=='mom' and center=='mean'):
+                    xmom *= ntrim
+                
                 if mode=='mom':
                     self.moment_ = xmom
             
-- 
2.43.0


From 643ffaa5a7d0bcda04fa091f4485130c70a48bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:34 +0000
Subject: [PATCH 10/72] fix: MDDM accepts a single predictor

---
 src/direpack/dicomo/_dicomo_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/dicomo/_dicomo_utils.py b/src/direpack/dicomo/_dicomo_utils.py
index fae2edf..4c3a274 100644
--- a/src/direpack/dicomo/_dicomo_utils.py
+++ b/src/direpack/dicomo/_dicomo_utils.py
@@ -448,7 +448,7 @@ def MDDM(X,Y):
     
     for i in range(n):
         if(p==1):
-            X_dist = np.abs(X[i]-X)
+            X_dist = np.abs(X[i]-X).reshape(-1,n)
             
         else: 
             X_diff= (( X.T - np.vstack(X[i,:])).T)**2
-- 
2.43.0


From 0b32b01cab45b2cbfd8fdd9293e6e92e142f7785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:07 +0000
Subject: [PATCH 11/72] fix: Huber and Hampel weights leave their argument
 alone

The weights were written into the distances, so that for cut-offs below one
the cases just set to weight 1 were picked up again by the later branches.
---
 src/direpack/sprm/_m_support_functions.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/direpack/sprm/_m_support_functions.py b/src/direpack/sprm/_m_support_functions.py
index 1a13cbc..a993850 100644
--- a/src/direpack/sprm/_m_support_functions.py
+++ b/src/direpack/sprm/_m_support_functions.py
@@ -15,13 +15,14 @@ def Fair(x, probct, *args):
 
 
 def Huber(x, probct, *args):
-    x[np.where(x <= probct)[0]] = 1
-    x[np.where(x > probct)] = probct / abs(x[np.where(x > probct)])
-    return x
+    wx = np.array(x, dtype="float64")
+    wx[np.where(x <= probct)[0]] = 1
+    wx[np.where(x > probct)] = probct / abs(x[np.where(x > probct)])
+    return wx
 
 
 def Hampel(x, probct, hampelb, hampelr):
-    wx = x
+    wx = np.array(x, dtype="float64")
     wx[np.where(x <= probct)[0]] = 1
     wx[np.where((x > probct) & (x <= hampelb))[0]] = probct / abs(
         x[np.where((x > probct) & (x <= hampelb))[0]]
-- 
2.43.0


From b9ab4158b450ed5ffc17ba1ea3115dc98b021ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:07 +0000
Subject: [PATCH 12/72] fix: robust loss downweights negative residuals too

---
 src/direpack/cross_validation/_cv_support_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/cross_validation/_cv_support_functions.py b/src/direpack/cross_validation/_cv_support_functions.py
index 56a7f23..44c1458 100644
--- a/src/direpack/cross_validation/_cv_support_functions.py
+++ b/src/direpack/cross_validation/_cv_support_functions.py
@@ -53,6 +53,6 @@ def robust_loss(y,ypred,lfun=mean_squared_error,fun=Hampel,probct=norm.ppf(0.975
         y = np.array(y).reshape(-1)
     y = y.astype('float64')
     r = y - ypred
-    w = fun(r,probct,hampelb,hampelr)
+    w = fun(np.abs(r),probct,hampelb,hampelr)
     return(lfun(y,ypred,sample_weight=w))
     
\ No newline at end of file
-- 
2.43.0


From f91271c1f105cb0237752ab76928f9414d6e2972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:07 +0000
Subject: [PATCH 13/72] fix: robust M starting weights use absolute response
 deviations

For other options than median/mad, cases far below the median started with
weight one.
---
 src/direpack/sprm/rm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sprm/rm.py b/src/direpack/sprm/rm.py
index 4a2d835..9a72d76 100644
--- a/src/direpack/sprm/rm.py
+++ b/src/direpack/sprm/rm.py
@@ -135,7 +135,7 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
         if [self.centre, self.scale] == ["median", "mad"]:
             wy = np.array(abs(ys), dtype=np.float64)
         else:
-            wy = (y - np.median(y)) / (1.4826 * np.median(abs(y - np.median(y))))
+            wy = abs(y - np.median(y)) / (1.4826 * np.median(abs(y - np.median(y))))
         self.probcty_ = norm.ppf(self.probp1)
         if self.start_cutoff_mode == "specific":
             self.probctx_ = chi2.ppf(self.probp1, p)
-- 
2.43.0


From b93a4b59282cb7de2c082ed1682d72048c70c652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:07 +0000
Subject: [PATCH 14/72] fix: robust M regression without scaling

---
 src/direpack/sprm/rm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sprm/rm.py b/src/direpack/sprm/rm.py
index 9a72d76..3a60087 100644
--- a/src/direpack/sprm/rm.py
+++ b/src/direpack/sprm/rm.py
@@ -236,8 +236,8 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
                     np.array(ys.astype("float64") - np.matmul(Xs.astype("float64"), b))
                 )
         else:
+            ytil = np.array(np.matmul(X, b)).reshape(-1)
             if self.centre == "mean":
-                ytil = np.array(np.matmul(X, b)).reshape(-1)
                 intercept = np.mean(y - ytil)
             else:
                 intercept = np.median(y - ytil)
-- 
2.43.0


From e8d03ed2a999f30ec31919a5d04c4a31d0687026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:07 +0000
Subject: [PATCH 15/72] fix: predict after fitting with copy=False

---
 src/direpack/sprm/rm.py   | 3 +++
 src/direpack/sprm/sprm.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/direpack/sprm/rm.py b/src/direpack/sprm/rm.py
index 3a60087..9b216de 100644
--- a/src/direpack/sprm/rm.py
+++ b/src/direpack/sprm/rm.py
@@ -92,6 +92,9 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
         if self.copy:
             self.X = copy.deepcopy(X)
             self.y = copy.deepcopy(y)
+        else:
+            self.X = X
+            self.y = y
         (n, p) = X.shape
         if not (self.fun in ("Hampel", "Huber", "Fair")):
             raise MyException(
diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 46345b3..0d14168 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -159,6 +159,9 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         if self.copy:
             self.X = copy.deepcopy(X)
             self.y = copy.deepcopy(y)
+        else:
+            self.X = X
+            self.y = y
         (n, p) = X.shape
         if not (type(self.n_components) == int) | (self.n_components <= 0):
             raise MyException(
-- 
2.43.0


From 737f371cfcd3e3d4306330d9e0e2553ce7ad9572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:07 +0000
Subject: [PATCH 16/72] fix: scaled intercept is the centre of the scaled
 residuals

A vector minus a column broadcast to an n x n matrix, whose median is not
the median of the residuals.
---
 src/direpack/sprm/rm.py   | 8 ++++++--
 src/direpack/sprm/sprm.py | 6 ++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/direpack/sprm/rm.py b/src/direpack/sprm/rm.py
index 9b216de..69d923f 100644
--- a/src/direpack/sprm/rm.py
+++ b/src/direpack/sprm/rm.py
@@ -233,10 +233,14 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
         yfit = yp_rescaled + intercept
         if self.scale != "None":
             if self.centre == "mean":
-                b0 = np.mean(ys.astype("float64") - np.matmul(Xs.astype("float64"), b))
+                b0 = np.mean(
+                    ys.astype("float64")
+                    - np.matmul(Xs.astype("float64"), b).reshape(-1)
+                )
             else:
                 b0 = np.median(
-                    np.array(ys.astype("float64") - np.matmul(Xs.astype("float64"), b))
+                    ys.astype("float64")
+                    - np.matmul(Xs.astype("float64"), b).reshape(-1)
                 )
         else:
             ytil = np.array(np.matmul(X, b)).reshape(-1)
diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 0d14168..9507cba 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -420,11 +420,13 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         if self.scale != "None":
             if self.centre == "mean":
                 b0 = np.mean(ys.astype("float64") -
-                             np.matmul(Xs.astype("float64"), b))
+                             np.matmul(Xs.astype("float64"), b).reshape(-1))
+            elif self.centre == "None":
+                b0 = 0
             else:
                 b0 = np.median(
                     np.array(ys.astype("float64") -
-                             np.matmul(Xs.astype("float64"), b))
+                             np.matmul(Xs.astype("float64"), b).reshape(-1))
                 )
             # yfit2 = (np.matmul(Xrc.Xs.astype("float64"),b) + b0)*yrc.col_sca + yrc.col_loc
             # already more generally included
-- 
2.43.0


From 7972ea494c3a7989ac9ed1c26deb3356f78d0c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:07 +0000
Subject: [PATCH 17/72] fix: specific starting cut-offs without PCA start

start_X_init other than 'pcapp' left the degrees of freedom undefined.
---
 src/direpack/sprm/sprm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 9507cba..a46fddf 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -269,6 +269,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             Urc = np.array(U[:, 0:relcomp])
             Us = scaling.fit_transform(Urc)
         else:
+            relcomp = p
             Us = Xs
         wx = np.sqrt(np.array(np.sum(np.square(Us), 1), dtype=np.float64))
         wx = wx / np.median(wx)
-- 
2.43.0


From 893387e15637759316beacc60accbb1154cd0b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:07 +0000
Subject: [PATCH 18/72] fix: fitting sparse PLS models leaves columns and scale
 parameters alone

Column names picked up from one data frame, or shortened by zero scale
variables, and the fallback to mad scaling were carried into later fits.
---
 src/direpack/sprm/snipls.py | 17 +++++++++--------
 src/direpack/sprm/sprm.py   | 34 ++++++++++++++++++----------------
 2 files changed, 27 insertions(+), 24 deletions(-)

diff --git a/src/direpack/sprm/snipls.py b/src/direpack/sprm/snipls.py
index 9092331..5bf9ee3 100644
--- a/src/direpack/sprm/snipls.py
+++ b/src/direpack/sprm/snipls.py
@@ -112,18 +112,19 @@ class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                     Response data
 
         """
-        if type(self.columns) is list:
-            self.columns = np.array(self.columns)
-        elif type(self.columns) is bool:
-            if type(X) != ps.core.frame.DataFrame and self.columns:
+        columns = self.columns
+        if type(columns) is list:
+            columns = np.array(columns)
+        elif type(columns) is bool:
+            if type(X) != ps.core.frame.DataFrame and columns:
                 raise (
                     MyException(
                         "Columns set to true can only extract column names for data frame input"
                     )
                 )
         if type(X) == ps.core.frame.DataFrame:
-            if type(self.columns) is bool and self.columns:
-                self.columns = X.columns
+            if type(columns) is bool and columns:
+                columns = X.columns
             X = X.to_numpy()
         (n, p) = X.shape
         if type(y) in [ps.core.frame.DataFrame, ps.core.series.Series]:
@@ -210,10 +211,10 @@ class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             )
             yev[i - 1] = np.nansum(nth ** 2 * (ch ** 2)) / \
                 np.nansum(np.power(y0, 2)) * 100
-            if type(self.columns) == bool:
+            if type(columns) == bool:
                 colret = goodies
             else:
-                colret = self.columns[np.setdiff1d(range(0, p), elimvars)]
+                colret = columns[np.setdiff1d(range(0, p), elimvars)]
             if self.verbose:
                 print(
                     "Variables retained for "
diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index a46fddf..176e9a5 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -192,31 +192,33 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 raise MyException(
                     "Wrong choise of parameters for Hampel function. Use 0<probp1<hampelp2<hampelp3<=1"
                 )
-        if type(self.columns) is list:
-            self.columns = np.array(self.columns)
-        elif type(self.columns) is bool:
-            if type(X) != ps.core.frame.DataFrame and self.columns:
+        columns = self.columns
+        if type(columns) is list:
+            columns = np.array(columns)
+        elif type(columns) is bool:
+            if type(X) != ps.core.frame.DataFrame and columns:
                 raise (
                     MyException(
                         "Columns set to true can only extract column names for data frame input"
                     )
                 )
         if type(X) == ps.core.frame.DataFrame:
-            if type(self.columns) is bool and self.columns:
-                self.columns = X.columns
+            if type(columns) is bool and columns:
+                columns = X.columns
         X = _check_input(X)
         y = _check_input(y)
         ny = y.shape[0]
         if ny != n:
             raise MyException("Number of cases in y and X must be identical.")
 
-        if self.scale == "scaleTau2":
+        scale = self.scale
+        if scale == "scaleTau2":
             if (mad(X) == 0).any():
                 # kstepLTS divides by MAD. Zero MAD leads to nan -> detect zero MAD, scale by MAD and remove zero MAD variable.
-                self.scale = "mad"
+                scale = "mad"
                 warnings.warn("Scale set to `mad`")
 
-        scaling = VersatileScaler(center=self.centre, scale=self.scale)
+        scaling = VersatileScaler(center=self.centre, scale=scale)
         Xs = scaling.fit_transform(X).astype("float64")
         mX = scaling.col_loc_
         sX = scaling.col_sca_
@@ -232,10 +234,10 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         zero_scale = np.where(sX < 1e-5)[0]
         vars_to_keep = np.arange(0, p)
         if len(zero_scale) > 0:
-            if type(self.columns) != bool:
+            if type(columns) != bool:
                 warntext = (
                     "Zero scale variables with indices "
-                    + str(self.columns[zero_scale])
+                    + str(columns[zero_scale])
                     + " detected and removed"
                 )
             else:
@@ -250,8 +252,8 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             Xs = Xs[:, vars_to_keep]
             X = X[:, vars_to_keep]
             sX = sX[vars_to_keep]
-            if type(self.columns) != bool:
-                self.columns = self.columns[vars_to_keep]
+            if type(columns) != bool:
+                columns = columns[vars_to_keep]
             p = len(vars_to_keep)
             if self.n_components > p:
                 raise MyException(
@@ -273,7 +275,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             Us = Xs
         wx = np.sqrt(np.array(np.sum(np.square(Us), 1), dtype=np.float64))
         wx = wx / np.median(wx)
-        if [self.centre, self.scale] == ["median", "mad"]:
+        if [self.centre, scale] == ["median", "mad"]:
             wy = np.array(abs(ys), dtype=np.float64)
         else:
             wy = (y - np.median(y, axis=0)) / (
@@ -324,7 +326,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             self.eta,
             self.n_components,
             self.verbose,
-            self.columns,
+            columns,
             "mean",
             "None",
             self.copy,
@@ -340,7 +342,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 r = abs(r) / (1.4826 * np.median(abs(r)))
             else:
                 r = abs(r) / (1.4826 * np.median(abs(r[r != 0])))
-            scalet = self.scale
+            scalet = scale
             if scalet == "None":
                 scalingt.set_params(scale="mad")
             dt = scalingt.fit_transform(T)
-- 
2.43.0


From 87f7a388e97ca489b938b6b099d10a2b8fd157d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:14 +0000
Subject: [PATCH 19/72] fix: omitted cases do not enter the robust M fit

Cases with zero weight were fitted with weight 1e-6, so that a sufficiently
remote outlier still drew the coefficients without bound.
---
 src/direpack/sprm/rm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/sprm/rm.py b/src/direpack/sprm/rm.py
index 69d923f..00d89da 100644
--- a/src/direpack/sprm/rm.py
+++ b/src/direpack/sprm/rm.py
@@ -165,7 +165,7 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
         w = (wx * wy).astype("float64")
         if (w < 1e-06).any():
             w0 = np.where(w < 1e-06)[0]
-            w[w0] = 1e-06
+            w[w0] = 0
             we = np.array(w, dtype=np.float64)
         else:
             we = np.array(w, dtype=np.float64)
@@ -200,7 +200,7 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
             w0 = []
             if any(we < 1e-06):
                 w0 = np.where(we < 1e-06)[0]
-                we[w0] = 1e-06
+                we[w0] = 0
                 we = np.array(we, dtype=np.float64)
             if len(w0) >= (n / 2):
                 break
-- 
2.43.0


From d5616789f92ed5506cd70f49da31fdb8d1457379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:52 +0000
Subject: [PATCH 20/72] fix: robust and quantile projection pursuit regression
 with positional response

---
 src/direpack/ppdire/ppdire.py | 50 +++++++++++++++++------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index d7ee7b8..94c6a36 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -250,33 +250,33 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
         else:
             flag = 'two-block'
             y = kwargs.get('y')
-                            
-            if 'quantile' not in kwargs:
-                quantile = .5
+
+        if 'quantile' not in kwargs:
+            quantile = .5
+        else:
+            quantile = kwargs.get('quantile')
+            
+        if self.regopt == 'robust':
+        
+            if 'fun' not in kwargs:
+                fun = 'Hampel'
             else:
-                quantile = kwargs.get('quantile')
-                
-            if self.regopt == 'robust':
+                fun = kwargs.get('fun')
             
-                if 'fun' not in kwargs:
-                    fun = 'Hampel'
-                else:
-                    fun = kwargs.get('fun')
-                
-                if 'probp1' not in kwargs:
-                    probp1 = 0.95
-                else:
-                    probp1 = kwargs.get('probp1')
-                
-                if 'probp2' not in kwargs:
-                    probp2 = 0.975
-                else:
-                    probp2 = kwargs.get('probp2')
-                
-                if 'probp3' not in kwargs:
-                    probp3 = 0.99
-                else:
-                    probp3 = kwargs.get('probp3')
+            if 'probp1' not in kwargs:
+                probp1 = 0.95
+            else:
+                probp1 = kwargs.get('probp1')
+            
+            if 'probp2' not in kwargs:
+                probp2 = 0.975
+            else:
+                probp2 = kwargs.get('probp2')
+            
+            if 'probp3' not in kwargs:
+                probp3 = 0.99
+            else:
+                probp3 = kwargs.get('probp3')
 
             
         if self.projection_index == dicomo:
-- 
2.43.0


From e5c07681f7742d38ec63a67f36517159aed2ba36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:52 +0000
Subject: [PATCH 21/72] fix: grid search for two variables

---
 src/direpack/ppdire/ppdire.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 94c6a36..ebdf575 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -465,7 +465,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             # Arguments for grid plane #2
             grid_args_2 = { 
                      'alpha': self.alpha,
-                     'alphamat': alphamat2,
+                     'alphamat': alphamat2 if p>2 else None,
                      'ndir': self.optimizer_options['ndir'],
                      'trimming': self.trimming,
                      'biascorr': biascorr, 
@@ -493,6 +493,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                     wi,maximo = gridplane(E,self.most,
                                           pi_arguments=opt_args
                                           )
+                    Maxobjf[i] = maximo
            
                 elif p>2:
                 
-- 
2.43.0


From 4a2d6e249eed92ed9cb63f580ee0b2a42a516a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:52 +0000
Subject: [PATCH 22/72] fix: grid search leaves the optimizer options alone

---
 src/direpack/ppdire/ppdire.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index ebdf575..c97983d 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -425,8 +425,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
         
         if self.optimizer=='grid':
             # Define grid optimization ranges
-            if 'ndir' not in self.optimizer_options:
-                self.optimizer_options['ndir'] = 1000
+            ndir = self.optimizer_options.get('ndir',1000)
             optrange = np.sign(self.optrange)
             optmax = self.optrange[1]
             stop0s = np.arcsin(optrange[0])
@@ -435,7 +434,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             stop0c = np.arccos(optrange[1])
             anglestart = max(stop0c,stop0s)
             anglestop = max(stop1c,stop1s)
-            nangle = np.linspace(anglestart,anglestop,self.optimizer_options['ndir'],endpoint=False)            
+            nangle = np.linspace(anglestart,anglestop,ndir,endpoint=False)            
             alphamat = np.array([np.cos(nangle), np.sin(nangle)])
             opt_args['_stop0c'] = stop0c
             opt_args['_stop0s'] = stop0s
@@ -450,14 +449,14 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             if p>2:
                 anglestart = min(opt_args['_stop0c'],opt_args['_stop0s'])
                 anglestop = min(opt_args['_stop1c'],opt_args['_stop1s'])
-                nangle = np.linspace(anglestart,anglestop,self.optimizer_options['ndir'],endpoint=True)
+                nangle = np.linspace(anglestart,anglestop,ndir,endpoint=True)
                 alphamat2 = np.array([np.cos(nangle), np.sin(nangle)])
                 if optmax != 1:
                     alphamat2 *= opt_args['optmax']
                 
             # Arguments for grid plane
             opt_args['alphamat'] = alphamat,
-            opt_args['ndir'] = self.optimizer_options['ndir'],
+            opt_args['ndir'] = ndir,
             opt_args['maxiter'] = self.optimizer_options['maxiter']
             if type(opt_args['ndir'] is tuple): 
                 opt_args['ndir'] = opt_args['ndir'][0]
@@ -466,7 +465,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             grid_args_2 = { 
                      'alpha': self.alpha,
                      'alphamat': alphamat2 if p>2 else None,
-                     'ndir': self.optimizer_options['ndir'],
+                     'ndir': ndir,
                      'trimming': self.trimming,
                      'biascorr': biascorr, 
                      'dmetric' : 'euclidean',
-- 
2.43.0


From a48c77b0e1b3282f079b04f9b69b1b29e8ad009d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:52 +0000
Subject: [PATCH 23/72] fix: number of components passed to fit leaves the
 parameter alone

---
 src/direpack/ppdire/ppdire.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index c97983d..952fb44 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -227,7 +227,6 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             h = self.n_components
         else:
             h = kwargs.pop('h')
-            self.n_components = h
             
         if 'dmetric' not in kwargs:
             dmetric = 'euclidean'
-- 
2.43.0


From 0a3a0079e23de372f49568acd5bb4bd30408b013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:52 +0000
Subject: [PATCH 24/72] fix: projection pursuit intercepts, scaled and with
 compression

---
 src/direpack/ppdire/ppdire.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 952fb44..9f8424f 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -696,7 +696,8 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             R = np.matmul(V[:,0:p],R)
             W = np.matmul(V[:,0:p],W)
             P = np.matmul(V[:,0:p],P)
-            bi = B[:,h-1]
+            bi = B[:,[h-1]]
+            bi_scaled = B_scaled[:,[h-1]]
             if self.center_data:
                 Xs = centring.fit_transform(X0)
                 mX = centring.col_loc_
@@ -718,9 +719,9 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             yfit = np.matmul(X,bi) + intercept
             if not(scale == 'None'):
                 if (self.center == "mean"):
-                    b0 = np.mean(ys - np.matmul(Xs.astype("float64"),bi))
+                    b0 = np.mean(ys - np.matmul(Xs.astype("float64"),bi_scaled))
                 else:
-                    b0 = np.median(np.array(ys.astype("float64") - np.matmul(Xs.astype("float64"),bi)))
+                    b0 = np.median(np.array(ys.astype("float64") - np.matmul(Xs.astype("float64"),bi_scaled)))
             else:
                 b0 = intercept
             
-- 
2.43.0


From 2cac6c0fb252ff70def24de11a0b7b9d4c910600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:52 +0000
Subject: [PATCH 25/72] fix: quantile regression on scores uses the
 standardised response

---
 src/direpack/ppdire/ppdire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 9f8424f..e27e8e5 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -675,7 +675,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                     linfit.fit(ti,ys)
                     ci = linfit.coef_
                 elif self.regopt == 'quantile':
-                    linfit = QuantReg(y,ti)
+                    linfit = QuantReg(ys,ti)
                     model = linfit.fit(q=quantile)
                     ci = model.params
                 # end regression if
-- 
2.43.0


From 74c81a9ce2b2c0ee5bc9d3f534c899ec8c2e4291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:11 +0000
Subject: [PATCH 26/72] fix: sudire predicts single new cases

---
 src/direpack/sudire/sudire.py | 1654 ++++++++++++++++-----------------
 1 file changed, 827 insertions(+), 827 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 62d8474..0b0021f 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -1,827 +1,827 @@
-# -*- coding: utf-8 -*-
-
-import numpy as np
-from scipy.linalg import inv, sqrtm
-import copy
-from sklearn.utils.metaestimators import _BaseComposition
-from sklearn.base import RegressorMixin, BaseEstimator, TransformerMixin, defaultdict
-from ..preprocessing.robcent import VersatileScaler
-from ._sudire_utils import *
-from scipy.linalg import orth
-import warnings
-import statsmodels.robust.scale as srs
-from scipy.stats import trim_mean
-import dcor as dc
-
-# import Ball
-import statsmodels.api as sm
-import inspect
-from ..ipopt_temp.ipopt_wrapper import minimize_ipopt
-from ..ipopt_temp.jacobian import (
-    FunctionWithApproxJacobianCentral,
-    FunctionWithApproxJacobian,
-)
-from ..dicomo._dicomo_utils import *
-from ..utils.utils import *
-
-
-class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
-
-    """SUDIRE Sufficient Dimension Reduction 
-    
-    The class allows for Sufficient Dimension Reduction using a variety of 
-    methods. If the method requires optimization of a function, 
-    This optimization is done through the Interior Point Optimizer (IPOPT)
-    algorithm. 
-        
-    Parameters
-    ----------
-        sudiremeth: function or class. sudiremeth in this package can also be used, 
-        but user defined functions  can be processed. Built in options are : 
-
-            save : Sliced Average Variance Estimation
-
-            sir  : Slices Inverse Regression
-
-            dr   : Directional Regression 
-
-            iht  : Iterative Hessian Transformations
-
-            dcov-sdr : SDR via Distance Covariance 
-            
-            mdd-sdr : SDR via Martingale Difference Divergence.
-
-            bcov-sdr : SDR via ball covariance
-            
-        n_components : int 
-                      dimension of the central subspace.
-            
-        trimming : float
-                 trimming percentage to be entered as pct/100 
-        
-        optimizer_options : dict 
-                            with options to pass on to the optimizer.Includes: 
-
-        max_iter : int
-                     Maximal number of iterations.
-
-        tol: float
-             relative convergence tolerance
-
-        constr_viol_tol : float
-                        Desired threshold for the constraint violation.
-            
-        optimizer_constraints : dict or list of dicts
-                                 further constraints to be passed on to the 
-                                 optimizer function.
-            
-        optimizer_arguments: dict
-                             extra arguments to be passed to the sudiremeth 
-                             function during optimization.
-        
-        optimizer_start : numpy array
-                         starting value for the optimization.
-        
-        center : str
-             how to center the data. options accepted are options from sprm.preprocessing 
-            
-        center_data : bool 
-                    If True, the data will be centered before the dimension reduction   
-        
-        scale_data : bool
-                    if set to False, convergence to correct optimum  is not a given.
-                    Will throw a warning. 
-            
-        compression : bool
-                     Use internal data compresion step for flat data. 
-        
-        n_slices :  int
-                    The number of slices for SAVE, SIR, DR
-    
-        is_distance_mat : bool 
-                         if the inputed matrices for x and y are distance matrices.
-            
-        dmetric :  str
-                 distance metric used internally. Defaults to 'euclidean'
-        
-        fit_ols :  bool 
-                 if True, an OLS model is fitted after the dimension reduction.
-        
-        copy : bool
-              Whether to make a deep copy of the input data or not. 
-        
-        verbose : bool
-                 Set to True prints the iteration number. 
-        
-        return_scaling_object: bool. 
-                                If True, the scaling object will be return after the 
-                                dimension reduction. 
-
-    Attributes
-    ----------
-    Attributes always provided 
-        -  `x_loadings_`: Estimated basis of the central subspace 
-        -  `x_scores_`: The projected X data. 
-        -  `x_loc_`:  location estimate for X 
-        -  `x_sca_`:  scale estimate for X
-        - ` ols_obj` : fitted OLS objected
-        -  `y_loc_`: y location estimate
-        -  `y_sca_`: y scale estimate
-
-    Attributes created only when corresponding input flags are `True`:
-        -   `whitening_`: whitened data matrix (usually denoted K)
-        -   `scaling_object_`: scaling object from `VersatileScaler`  
-        
-    
-        
-    
-    """
-
-    def __init__(
-        self,
-        sudiremeth="dcov-sdr",
-        n_components=2,
-        trimming=0,
-        optimizer_options={"max_iter": 1000},
-        optimizer_constraints=None,
-        optimizer_arguments=None,
-        optimizer_start=None,
-        center_data=True,
-        center="mean",
-        scale_data=True,
-        whiten_data=False,
-        compression=False,
-        n_slices=6,
-        dmetric="euclidean",
-        fit_ols=True,
-        copy=True,
-        response_type="continuous",
-        verbose=True,
-        return_scaling_object=True,
-    ):
-        # Called arguments
-        self.sudiremeth = sudiremeth
-        self.n_components = n_components
-        self.trimming = trimming
-        self.optimizer_options = optimizer_options
-        self.optimizer_constraints = optimizer_constraints
-        self.optimizer_arguments = optimizer_arguments
-        self.optimizer_start = optimizer_start
-        self.center = center
-        self.center_data = center_data
-        self.scale_data = scale_data
-        self.whiten_data = whiten_data
-        self.compression = compression
-        self.n_slices = n_slices
-        self.dmetric = dmetric
-        self.fit_ols = fit_ols
-        self.copy = copy
-        self.response_type = response_type
-        self.verbose = verbose
-        self.return_scaling_object = return_scaling_object
-
-        # Other global parameters
-        self.licenter = ["mean", "median"]
-        if not (self.center in self.licenter):
-            raise (
-                ValueError(
-                    'Only location estimator classes allowed are: "mean", "median"'
-                )
-            )
-        self.limeths = [
-            "sir",
-            "save",
-            "dr",
-            "dcov-sdr",
-            "bcov-sdr",
-            "mdd-sdr",
-            "phd",
-            "iht",
-        ]
-        if not (self.sudiremeth in self.limeths) and not callable(self.sudiremeth):
-            raise (
-                ValueError(
-                    'Only SDR methods allowed are : "sir", "save", "dr", "dcov-sdr","bcov-sdr", "mdd-sdr", "iht","phd"'
-                )
-            )
-
-    def fit(self, X, y, *args, **kwargs):
-
-        """
-        Fit a Sufficient Dimension Reduction Model. 
-        
-        Parameters
-        ----------
-                X : matrix or data frame 
-                    Input data of predictors  
-
-                y :  vector or 1D matrix
-                    Response data
-                
-                args or kwargs : 
-                                Further parameters to user defined sudiremeth can be passed here  
-        Returns
-        -------
-            self
-        
-        -------
-        """
-
-        # Collect optional fit arguments
-
-        if "dmetric" not in kwargs:
-            dmetric = "euclidean"
-        else:
-            dmetric = kwargs.get("dmetric")
-        if "biascorr" not in kwargs:
-            biascorr = False
-        else:
-            biascorr = kwargs.get("biascorr")
-        if "flag" not in kwargs:
-            flag = "two-block"
-        else:
-            flag = kwargs.get("flag")
-        if "is_distance_mat" not in kwargs:
-            is_distance_mat = False
-        else:
-            is_distance_mat = kwargs.pop("is_distance_mat")
-        # Initiate some parameters and data frames
-        if self.copy:
-            X0 = copy.deepcopy(X)
-            self.X0 = X0
-        else:
-            X0 = X
-        X = convert_X_input(X0)
-        n, p = X0.shape
-        trimming = self.trimming
-
-        # Check dimensions
-        if self.n_components > min(n, p):
-            raise (
-                MyException(
-                    "number of components cannot exceed number of variables or sample size"
-                )
-            )
-        # Pre-processing adjustment if whitening
-        if self.whiten_data:
-            self.center_data = True
-            self.scale_data = False
-            self.compression = False
-            print("All results produced are for whitened data")
-        # Store original X data mean and varcov matrix.
-        varmatx = np.cov(X, rowvar=0)
-        meanx = X.mean(axis=0)
-        N2 = inv(sqrtm(varmatx))
-
-        # Data Compression for flat tables if required
-        if (p > n) and self.compression:
-            V, S, U = np.linalg.svd(X.T, full_matrices=False)
-            X = np.matmul(U.T, np.diag(S))
-            n, p = X.shape
-
-            if (srs.mad(X) == 0).any():
-                warnings.warn(
-                    "Due to low scales in data, compression would induce zero scales."
-                    + "\n"
-                    + "Proceeding without compression."
-                )
-                dimensions = False
-                if copy:
-                    X = copy.deepcopy(X0)
-                else:
-                    X = X0
-            else:
-                dimensions = True
-        else:
-            dimensions = False
-
-            # Centring and scaling
-            # centering :
-        if self.center_data:
-            if self.center != "mean":
-                centring = VersatileScaler(
-                    center=self.center, scale="None", trimming=self.trimming
-                )
-                Xs = centring.fit_transform(X0)
-                mX = centring.col_loc_
-                sX = centring.col_sca_
-            else:
-                Xs = X - trim_mean(X, self.trimming, axis=0)
-                mX = trim_mean(X, self.trimming, axis=0)
-                sX = np.sqrt(np.diag(varmatx))
-        else:
-            Xs = X0
-            mX = np.zeros((1, p))
-            sX = np.ones((1, p))
-        if self.scale_data:
-            if self.center == "mean":
-                scale = "std"
-                N2 = inv(sqrtm(varmatx))
-                Xs = np.matmul(Xs, N2)
-            elif (self.center == "median") or (self.center == "l1median"):
-                scale = "mad"
-                centring = VersatileScaler(
-                    center=self.center, scale=scale, trimming=trimming
-                )
-                Xs = centring.fit_transform(X0)
-                mX = centring.col_loc_
-                sX = centring.col_sca_
-            else:
-                raise (
-                    MyException(
-                        'centering options have to be either "mean", "median", or "l1median"'
-                    )
-                )
-        else:
-            scale = "None"
-            warnings.warn("Without scaling, convergence to optima is not given")
-        # Initiate centring object and scale X data
-
-        if self.whiten_data:
-            V, S, U = np.linalg.svd(Xs.T, full_matrices=False)
-            del U
-            K = (V / S)[:, :p]
-            del S
-            Xs = np.matmul(Xs, K)
-            Xs *= np.sqrt(p)
-        # Pre-process y data
-        ny = y.shape[0]
-        y = convert_y_input(y)
-        if len(y.shape) < 2:
-            y = np.array(y).reshape((ny, 1))
-        if ny != n:
-            raise (MyException("X and y number of rows must agree"))
-        # Pre-process y data when available
-        if flag != "one-block":
-            ny = y.shape[0]
-            y = convert_y_input(y)
-            if len(y.shape) < 2:
-                y = np.array(y).reshape((ny, 1))
-            if ny != n:
-                raise (MyException("X and y number of rows must agree"))
-            if self.copy:
-                y0 = copy.deepcopy(y)
-                self.y0 = y0
-            if self.center_data:
-                ys = y  # dont center y
-                my = np.mean(y, axis=0)
-                sy = np.sqrt(np.var(y, axis=0))
-            else:
-                ys = y
-                my = 0
-                sy = 1
-            ys = ys.astype("float64")
-        else:
-            ys = None
-        if self.sudiremeth == "sir":
-            P = SIR(
-                Xs,
-                ys,
-                self.n_slices,
-                self.n_components,
-                self.response_type,
-                self.center_data,
-                self.scale_data,
-            )
-            if self.scale_data:
-                P = np.matmul(N2, P)
-            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
-        elif self.sudiremeth == "save":
-            P = SAVE(
-                Xs,
-                ys,
-                self.n_slices,
-                self.n_components,
-                self.response_type,
-                self.center_data,
-                self.scale_data,
-            )
-            if self.scale_data:
-                P = np.matmul(N2, P)
-            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
-        elif self.sudiremeth == "dr":
-            P = DR(
-                Xs,
-                ys,
-                self.n_slices,
-                self.n_components,
-                self.response_type,
-                self.center_data,
-                self.scale_data,
-            )
-            if self.scale_data:
-                P = np.matmul(N2, P)
-            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
-        elif self.sudiremeth == "phd":
-            P = PHD(Xs, ys, self.n_components, self.center_data, self.scale_data)
-            if self.scale_data:
-                P = np.matmul(N2, P)
-            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
-        elif self.sudiremeth == "iht":
-            P = IHT(Xs, ys, self.n_components, self.center_data, self.scale_data)
-            if self.scale_data:
-                P = np.matmul(N2, P)
-            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
-        else:  # SDR obtained through optimization of some function
-
-            ## choose starting value for DCOV-SDR
-            if self.optimizer_start is None:
-                save_start = SAVE(
-                    Xs, ys, 3, self.n_components, self.center_data, self.scale_data
-                )
-                if self.scale_data:
-                    save_start = np.matmul(N2, save_start)
-                sir_start = SIR(
-                    Xs, ys, 6, self.n_components, self.center_data, self.scale_data
-                )
-                if self.scale_data:
-                    sir_start = np.matmul(N2, sir_start)
-                beta_save = orth(save_start)
-                dc_save = dc.distance_covariance_sqr(np.matmul(Xs, beta_save), y)
-                beta_sir = orth(sir_start)
-                dc_sir = dc.distance_covariance_sqr(np.matmul(Xs, beta_sir), y)
-                DR_start = DR(
-                    Xs, y, 6, self.n_components, self.center_data, self.scale_data
-                )
-                if self.scale_data:
-                    DR_start = np.matmul(N2, DR_start)
-                beta_DR = orth(DR_start)
-                dc_DR = dc.distance_covariance_sqr(np.matmul(Xs, beta_DR), y)
-                if dc_save >= dc_sir and dc_save >= dc_DR:
-                    self.optimizer_start = save_start.flatten(order="F")
-                elif dc_sir >= dc_save and dc_sir >= dc_DR:
-                    self.optimizer_start = sir_start.flatten(order="F")
-                else:
-                    self.optimizer_start = DR_start.flatten(order="F")
-            ## add constraints for the optimization
-            if self.optimizer_constraints is None:
-                const_x = []
-                const_z = []
-                for i in range(0, self.n_components):
-                    for j in range(0, self.n_components):
-                        const_x.append(
-                            {
-                                "type": "eq",
-                                "fun": const_xscale,
-                                "args": (Xs, self.n_components, i, j),
-                            }
-                        )  # change const2 to const_func
-                        const_z.append(
-                            {
-                                "type": "eq",
-                                "fun": const_zscale,
-                                "args": (Xs, self.n_components, i, j),
-                            }
-                        )
-                if self.scale_data:
-                    self.optimizer_constraints = tuple(const_z)
-                else:
-                    self.optimizer_constraints = tuple(const_x)
-            if self.optimizer_arguments is None:
-                N2 = inv(sqrtm(varmatx))
-                self.optimizer_arguments = (
-                    Xs,
-                    ys,
-                    self.n_components,
-                    N2,
-                    is_distance_mat,
-                    self.trimming,
-                    self.center,
-                    dmetric,
-                    biascorr,
-                )
-            # perform DCOV-SDR optimization
-            res = minimize_ipopt(
-                dcov_trim,
-                self.optimizer_start,
-                args=self.optimizer_arguments,
-                constraints=self.optimizer_constraints,
-                options=self.optimizer_options,
-            )
-            if self.scale_data:
-                dcov_res = np.matmul(
-                    N2, np.reshape(res.x, (-1, self.n_components), order="F")
-                )
-            else:
-                dcov_res = np.reshape(res.x, (-1, self.n_components), order="F")
-            if self.sudiremeth == "dcov-sdr":
-                P = dcov_res
-                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(self.X0, P)
-            elif self.sudiremeth == "bcov-sdr":
-                self.optimizer_start = dcov_res.flatten(order="F")
-                res_ball = minimize_ipopt(
-                    ballcov_func,
-                    self.optimizer_start,
-                    args=self.optimizer_arguments,
-                    constraints=self.optimizer_constraints,
-                    options=self.optimizer_options,
-                )
-                if self.scale_data:
-                    P = np.matmul(
-                        N2, np.reshape(res_ball.x, (-1, self.n_components), order="F")
-                    )
-                else:
-                    P = np.reshape(res_ball.x, (-1, self.n_components), order="F")
-                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(self.X0, P)
-            elif self.sudiremeth == "mdd-sdr":
-                self.optimizer_start = dcov_res.flatten(order="F")
-                res_mdd = minimize_ipopt(
-                    mdd_trim,
-                    self.optimizer_start,
-                    args=self.optimizer_arguments,
-                    constraints=self.optimizer_constraints,
-                    options=self.optimizer_options,
-                )
-                if self.scale_data:
-                    P = np.matmul(
-                        N2, np.reshape(res_mdd.x, (-1, self.n_components), order="F")
-                    )
-                else:
-                    P = np.reshape(res_mdd.x, (-1, self.n_components), order="F")
-                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(self.X0, P)
-            else:  ## user defined function
-                self.optimizer_start = dcov_res.flatten(order="F")
-                opt_res = minimize_ipopt(
-                    self.sudiremeth,
-                    self.optimizer_start,
-                    args=self.optimizer_arguments,
-                    constraints=self.optimizer_constraints,
-                    options=self.optimizer_options,
-                )
-                if self.scale_data:
-                    P = np.matmul(
-                        N2, np.reshape(opt_res.x, (-1, self.n_components), order="F")
-                    )
-                else:
-                    P = np.reshape(opt_res.x, (-1, self.n_components), order="F")
-                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(self.X0, P)
-        # perform OLS regression
-        T_reg = sm.add_constant(T)  # adding a constant
-        ols_obj = sm.OLS(ys, T_reg).fit()
-
-        # Re-adjust estimates to original dimensions if data have been compressed
-        if dimensions:
-            P = np.matmul(V[:, 0:p], P)
-        setattr(self, "x_loadings_", P)
-        setattr(self, "x_scores_", T)
-        setattr(self, "proj_mat_", projMat)
-        if self.whiten_data:
-            setattr(self, "whitening_", K)
-        setattr(self, "x_loc_", mX)
-        setattr(self, "x_sca_", sX)
-        setattr(self, "scaling_", scale)
-        setattr(self, "ols_obj_", ols_obj)
-        if self.return_scaling_object and self.center != "mean":
-            setattr(self, "scaling_object_", centring)
-        return self
-
-    def transform(self, Xn, distance_mat=False):
-        """
-        Computes the dimension reduction of the data Xn based on the fitted sudire model.
-
-        Parameters
-        ----------
-                Xn : matrix or data frame
-                     Input data to be transformed 
-
-                distance_mat : numpy array 
-                                 distance matrix to represent similarity between observations. 
-                
-                args or kwargs: 
-                                Further parameters to user defined sufdiremeth can be passed here  
-        Returns
-        -------
-        transformed_data : numpy array
-                             the dimension reduced data 
-
-         -------
-        """
-        Xn = convert_X_input(Xn)
-        (n, p) = Xn.shape
-        (q, h) = self.x_loadings_.shape
-        if p != q:
-            raise (
-                ValueError(
-                    "New data must have same number of columns as the ones the model has been trained with"
-                )
-            )
-        return np.matmul(Xn, self.x_loadings_)
-
-    def predict(self, Xn, is_distance_mat=False):
-        """
-        predicts the response  on new data Xn
-
-        Parameters
-        ----------
-                Xn : matrix or data frame
-                     Input data to be transformed 
-
-                is_distance_mat : bool 
-                                 if True, Xn is treated as a distance matrix 
-                
-        Returns
-        -------
-        predictions : numpy array 
-                      The predictions from the dimension reduction model
-        -------
-        """
-        Xn = convert_X_input(Xn)
-        (n, p) = Xn.shape
-        (q, h) = self.x_loadings_.shape
-        if p != q:
-            raise (
-                ValueError(
-                    "New data must have same number of columns as the ones the model has been trained with"
-                )
-            )
-        Xns = self.transform(Xn)
-        Xns = sm.add_constant(Xns)  # adding a constant
-        ys = self.ols_obj_.predict(Xns)
-        return ys
-
-    @classmethod
-    def _get_param_names(cls):
-        """Get parameter names for the estimator"""
-        # fetch the constructor or the original constructor before
-        # deprecation wrapping if any
-        init = getattr(cls.__init__, "deprecated_original", cls.__init__)
-        if init is object.__init__:
-            # No explicit constructor to introspect
-            return []
-        # introspect the constructor arguments to find the model parameters
-        # to represent
-        init_signature = inspect.signature(init)
-        # Consider the constructor parameters excluding 'self'
-        parameters = [
-            p
-            for p in init_signature.parameters.values()
-            if p.name != "self" and p.kind != p.VAR_KEYWORD
-        ]
-        for p in parameters:
-            if p.kind == p.VAR_POSITIONAL:
-                raise RuntimeError(
-                    "scikit-learn estimators should always "
-                    "specify their parameters in the signature"
-                    " of their __init__ (no varargs)."
-                    " %s with constructor %s doesn't "
-                    " follow this convention." % (cls, init_signature)
-                )
-        # Extract and sort argument names excluding 'self'
-        return sorted([p.name for p in parameters])
-
-    def get_params(self, deep=False):
-        """Get parameters for this estimator.
-        Parameters
-        ----------
-        deep : boolean, optional
-            If True, will return the parameters for this estimator and
-            contained subobjects that are estimators.
-        Returns
-        -------
-        params : mapping of string to any
-            Parameter names mapped to their values.
-        ------
-        Copied from ScikitLlearn instead of imported to avoid 'deep=True'
-        """
-        out = dict()
-        for key in self._get_param_names():
-            value = getattr(self, key, None)
-            if deep and hasattr(value, "get_params"):
-                deep_items = value.get_params().items()
-                out.update((key + "__" + k, val) for k, val in deep_items)
-            out[key] = value
-        return out
-
-    def set_params(self, **params):
-        """Set the parameters of this estimator.
-        Copied from ScikitLearn, adapted to avoid calling 'deep=True'
-        
-        Returns
-        -------
-        self
-        ------
-        Copied from ScikitLlearn instead of imported to avoid 'deep=True'
-        """
-        if not params:
-            # Simple optimization to gain speed (inspect is slow)
-            return self
-        valid_params = self.get_params()
-
-        nested_params = defaultdict(dict)  # grouped by prefix
-        for key, value in params.items():
-            key, delim, sub_key = key.partition("__")
-            if key not in valid_params:
-                raise ValueError(
-                    "Invalid parameter %s for estimator %s. "
-                    "Check the list of available parameters "
-                    "with `estimator.get_params().keys()`." % (key, self)
-                )
-            if delim:
-                nested_params[key][sub_key] = value
-            else:
-                setattr(self, key, value)
-                valid_params[key] = value
-        for key, sub_params in nested_params.items():
-            valid_params[key].set_params(**sub_params)
-        return self
-
-
-def estimate_structural_dim(sudiremeth, Xn, y, B, *args, **kwargs):
-    """
-    Estimates the dimension of the central subspace using 
-    the sudiremeth.  This approach is based on the bootstrap method of Sheng and Yin (2016)
-    
-    Parameters
-    ----------
-
-        sudiremeth : str
-                    the SDR method to use in the estimation.
-
-        X :  numpy array or dataframe
-            Input X data
-
-        Y : vector or 1d matrix
-            Input Y data as 
-
-        B : int 
-            Number of bootstrap replications
-
-        kwargs:
-
-            n_slices: number of slices for SIR/SAVE/DR
-
-            center_data, bool : if the data  should be centered 
-
-            scale_data, bool :  if the data should be scaled
-
-            center, string :   which centering('mean', 'median')
-            
-    Returns
-    ----------     
-
-    h : int 
-        representing the dimension of the central subspace
-
-    ----------
-    """
-    if "n_slices" not in kwargs:
-        n_slices = 6
-    else:
-        n_slices = kwargs.pop("n_slices")
-    if "center_data" not in kwargs:
-        center_data = True
-    else:
-        center_data = kwargs.pop("center_data")
-    if "scale_data" not in kwargs:
-        scale_data = True
-    else:
-        scale_data = kwargs.pop("scale_data")
-    if "center" not in kwargs:
-        center = "mean"
-    else:
-        center = kwargs.pop("center")
-    Xn = convert_X_input(Xn)
-    y = convert_y_input(y)
-    n, p = Xn.shape
-
-    diff_b = []
-    mean_diff = []
-    for k in range(1, p + 1):
-        print("possible dim", k)
-        sdr = sudire(
-            sudiremeth,
-            center_data=center_data,
-            scale_data=scale_data,
-            center=center,
-            n_slices=n_slices,
-            n_components=k,
-        )
-        sdr.fit(Xn, y=y)
-        projMat = sdr.proj_mat_
-
-        for b in range(B):
-            idx = np.random.randint(0, n, n)
-            X_b = Xn[idx, :].copy()
-            sdr_b = sudire(
-                sudiremeth,
-                center_data=center_data,
-                scale_data=scale_data,
-                center=center,
-                n_slices=n_slices,
-                n_components=k,
-            )
-            sdr_b.fit(X_b, y=y)
-            projMat_b = sdr_b.proj_mat_
-            uh, sh, vh = np.linalg.svd(projMat - projMat_b)
-            diff_b.append(np.nanmax(sh))
-        mean_diff.append(np.mean(diff_b))
-    return (np.argmin(mean_diff) + 1, mean_diff)
+# -*- coding: utf-8 -*-
+
+import numpy as np
+from scipy.linalg import inv, sqrtm
+import copy
+from sklearn.utils.metaestimators import _BaseComposition
+from sklearn.base import RegressorMixin, BaseEstimator, TransformerMixin, defaultdict
+from ..preprocessing.robcent import VersatileScaler
+from ._sudire_utils import *
+from scipy.linalg import orth
+import warnings
+import statsmodels.robust.scale as srs
+from scipy.stats import trim_mean
+import dcor as dc
+
+# import Ball
+import statsmodels.api as sm
+import inspect
+from ..ipopt_temp.ipopt_wrapper import minimize_ipopt
+from ..ipopt_temp.jacobian import (
+    FunctionWithApproxJacobianCentral,
+    FunctionWithApproxJacobian,
+)
+from ..dicomo._dicomo_utils import *
+from ..utils.utils import *
+
+
+class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
+
+    """SUDIRE Sufficient Dimension Reduction 
+    
+    The class allows for Sufficient Dimension Reduction using a variety of 
+    methods. If the method requires optimization of a function, 
+    This optimization is done through the Interior Point Optimizer (IPOPT)
+    algorithm. 
+        
+    Parameters
+    ----------
+        sudiremeth: function or class. sudiremeth in this package can also be used, 
+        but user defined functions  can be processed. Built in options are : 
+
+            save : Sliced Average Variance Estimation
+
+            sir  : Slices Inverse Regression
+
+            dr   : Directional Regression 
+
+            iht  : Iterative Hessian Transformations
+
+            dcov-sdr : SDR via Distance Covariance 
+            
+            mdd-sdr : SDR via Martingale Difference Divergence.
+
+            bcov-sdr : SDR via ball covariance
+            
+        n_components : int 
+                      dimension of the central subspace.
+            
+        trimming : float
+                 trimming percentage to be entered as pct/100 
+        
+        optimizer_options : dict 
+                            with options to pass on to the optimizer.Includes: 
+
+        max_iter : int
+                     Maximal number of iterations.
+
+        tol: float
+             relative convergence tolerance
+
+        constr_viol_tol : float
+                        Desired threshold for the constraint violation.
+            
+        optimizer_constraints : dict or list of dicts
+                                 further constraints to be passed on to the 
+                                 optimizer function.
+            
+        optimizer_arguments: dict
+                             extra arguments to be passed to the sudiremeth 
+                             function during optimization.
+        
+        optimizer_start : numpy array
+                         starting value for the optimization.
+        
+        center : str
+             how to center the data. options accepted are options from sprm.preprocessing 
+            
+        center_data : bool 
+                    If True, the data will be centered before the dimension reduction   
+        
+        scale_data : bool
+                    if set to False, convergence to correct optimum  is not a given.
+                    Will throw a warning. 
+            
+        compression : bool
+                     Use internal data compresion step for flat data. 
+        
+        n_slices :  int
+                    The number of slices for SAVE, SIR, DR
+    
+        is_distance_mat : bool 
+                         if the inputed matrices for x and y are distance matrices.
+            
+        dmetric :  str
+                 distance metric used internally. Defaults to 'euclidean'
+        
+        fit_ols :  bool 
+                 if True, an OLS model is fitted after the dimension reduction.
+        
+        copy : bool
+              Whether to make a deep copy of the input data or not. 
+        
+        verbose : bool
+                 Set to True prints the iteration number. 
+        
+        return_scaling_object: bool. 
+                                If True, the scaling object will be return after the 
+                                dimension reduction. 
+
+    Attributes
+    ----------
+    Attributes always provided 
+        -  `x_loadings_`: Estimated basis of the central subspace 
+        -  `x_scores_`: The projected X data. 
+        -  `x_loc_`:  location estimate for X 
+        -  `x_sca_`:  scale estimate for X
+        - ` ols_obj` : fitted OLS objected
+        -  `y_loc_`: y location estimate
+        -  `y_sca_`: y scale estimate
+
+    Attributes created only when corresponding input flags are `True`:
+        -   `whitening_`: whitened data matrix (usually denoted K)
+        -   `scaling_object_`: scaling object from `VersatileScaler`  
+        
+    
+        
+    
+    """
+
+    def __init__(
+        self,
+        sudiremeth="dcov-sdr",
+        n_components=2,
+        trimming=0,
+        optimizer_options={"max_iter": 1000},
+        optimizer_constraints=None,
+        optimizer_arguments=None,
+        optimizer_start=None,
+        center_data=True,
+        center="mean",
+        scale_data=True,
+        whiten_data=False,
+        compression=False,
+        n_slices=6,
+        dmetric="euclidean",
+        fit_ols=True,
+        copy=True,
+        response_type="continuous",
+        verbose=True,
+        return_scaling_object=True,
+    ):
+        # Called arguments
+        self.sudiremeth = sudiremeth
+        self.n_components = n_components
+        self.trimming = trimming
+        self.optimizer_options = optimizer_options
+        self.optimizer_constraints = optimizer_constraints
+        self.optimizer_arguments = optimizer_arguments
+        self.optimizer_start = optimizer_start
+        self.center = center
+        self.center_data = center_data
+        self.scale_data = scale_data
+        self.whiten_data = whiten_data
+        self.compression = compression
+        self.n_slices = n_slices
+        self.dmetric = dmetric
+        self.fit_ols = fit_ols
+        self.copy = copy
+        self.response_type = response_type
+        self.verbose = verbose
+        self.return_scaling_object = return_scaling_object
+
+        # Other global parameters
+        self.licenter = ["mean", "median"]
+        if not (self.center in self.licenter):
+            raise (
+                ValueError(
+                    'Only location estimator classes allowed are: "mean", "median"'
+                )
+            )
+        self.limeths = [
+            "sir",
+            "save",
+            "dr",
+            "dcov-sdr",
+            "bcov-sdr",
+            "mdd-sdr",
+            "phd",
+            "iht",
+        ]
+        if not (self.sudiremeth in self.limeths) and not callable(self.sudiremeth):
+            raise (
+                ValueError(
+                    'Only SDR methods allowed are : "sir", "save", "dr", "dcov-sdr","bcov-sdr", "mdd-sdr", "iht","phd"'
+                )
+            )
+
+    def fit(self, X, y, *args, **kwargs):
+
+        """
+        Fit a Sufficient Dimension Reduction Model. 
+        
+        Parameters
+        ----------
+                X : matrix or data frame 
+                    Input data of predictors  
+
+                y :  vector or 1D matrix
+                    Response data
+                
+                args or kwargs : 
+                                Further parameters to user defined sudiremeth can be passed here  
+        Returns
+        -------
+            self
+        
+        -------
+        """
+
+        # Collect optional fit arguments
+
+        if "dmetric" not in kwargs:
+            dmetric = "euclidean"
+        else:
+            dmetric = kwargs.get("dmetric")
+        if "biascorr" not in kwargs:
+            biascorr = False
+        else:
+            biascorr = kwargs.get("biascorr")
+        if "flag" not in kwargs:
+            flag = "two-block"
+        else:
+            flag = kwargs.get("flag")
+        if "is_distance_mat" not in kwargs:
+            is_distance_mat = False
+        else:
+            is_distance_mat = kwargs.pop("is_distance_mat")
+        # Initiate some parameters and data frames
+        if self.copy:
+            X0 = copy.deepcopy(X)
+            self.X0 = X0
+        else:
+            X0 = X
+        X = convert_X_input(X0)
+        n, p = X0.shape
+        trimming = self.trimming
+
+        # Check dimensions
+        if self.n_components > min(n, p):
+            raise (
+                MyException(
+                    "number of components cannot exceed number of variables or sample size"
+                )
+            )
+        # Pre-processing adjustment if whitening
+        if self.whiten_data:
+            self.center_data = True
+            self.scale_data = False
+            self.compression = False
+            print("All results produced are for whitened data")
+        # Store original X data mean and varcov matrix.
+        varmatx = np.cov(X, rowvar=0)
+        meanx = X.mean(axis=0)
+        N2 = inv(sqrtm(varmatx))
+
+        # Data Compression for flat tables if required
+        if (p > n) and self.compression:
+            V, S, U = np.linalg.svd(X.T, full_matrices=False)
+            X = np.matmul(U.T, np.diag(S))
+            n, p = X.shape
+
+            if (srs.mad(X) == 0).any():
+                warnings.warn(
+                    "Due to low scales in data, compression would induce zero scales."
+                    + "\n"
+                    + "Proceeding without compression."
+                )
+                dimensions = False
+                if copy:
+                    X = copy.deepcopy(X0)
+                else:
+                    X = X0
+            else:
+                dimensions = True
+        else:
+            dimensions = False
+
+            # Centring and scaling
+            # centering :
+        if self.center_data:
+            if self.center != "mean":
+                centring = VersatileScaler(
+                    center=self.center, scale="None", trimming=self.trimming
+                )
+                Xs = centring.fit_transform(X0)
+                mX = centring.col_loc_
+                sX = centring.col_sca_
+            else:
+                Xs = X - trim_mean(X, self.trimming, axis=0)
+                mX = trim_mean(X, self.trimming, axis=0)
+                sX = np.sqrt(np.diag(varmatx))
+        else:
+            Xs = X0
+            mX = np.zeros((1, p))
+            sX = np.ones((1, p))
+        if self.scale_data:
+            if self.center == "mean":
+                scale = "std"
+                N2 = inv(sqrtm(varmatx))
+                Xs = np.matmul(Xs, N2)
+            elif (self.center == "median") or (self.center == "l1median"):
+                scale = "mad"
+                centring = VersatileScaler(
+                    center=self.center, scale=scale, trimming=trimming
+                )
+                Xs = centring.fit_transform(X0)
+                mX = centring.col_loc_
+                sX = centring.col_sca_
+            else:
+                raise (
+                    MyException(
+                        'centering options have to be either "mean", "median", or "l1median"'
+                    )
+                )
+        else:
+            scale = "None"
+            warnings.warn("Without scaling, convergence to optima is not given")
+        # Initiate centring object and scale X data
+
+        if self.whiten_data:
+            V, S, U = np.linalg.svd(Xs.T, full_matrices=False)
+            del U
+            K = (V / S)[:, :p]
+            del S
+            Xs = np.matmul(Xs, K)
+            Xs *= np.sqrt(p)
+        # Pre-process y data
+        ny = y.shape[0]
+        y = convert_y_input(y)
+        if len(y.shape) < 2:
+            y = np.array(y).reshape((ny, 1))
+        if ny != n:
+            raise (MyException("X and y number of rows must agree"))
+        # Pre-process y data when available
+        if flag != "one-block":
+            ny = y.shape[0]
+            y = convert_y_input(y)
+            if len(y.shape) < 2:
+                y = np.array(y).reshape((ny, 1))
+            if ny != n:
+                raise (MyException("X and y number of rows must agree"))
+            if self.copy:
+                y0 = copy.deepcopy(y)
+                self.y0 = y0
+            if self.center_data:
+                ys = y  # dont center y
+                my = np.mean(y, axis=0)
+                sy = np.sqrt(np.var(y, axis=0))
+            else:
+                ys = y
+                my = 0
+                sy = 1
+            ys = ys.astype("float64")
+        else:
+            ys = None
+        if self.sudiremeth == "sir":
+            P = SIR(
+                Xs,
+                ys,
+                self.n_slices,
+                self.n_components,
+                self.response_type,
+                self.center_data,
+                self.scale_data,
+            )
+            if self.scale_data:
+                P = np.matmul(N2, P)
+            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+            T = np.matmul(self.X0, P)
+        elif self.sudiremeth == "save":
+            P = SAVE(
+                Xs,
+                ys,
+                self.n_slices,
+                self.n_components,
+                self.response_type,
+                self.center_data,
+                self.scale_data,
+            )
+            if self.scale_data:
+                P = np.matmul(N2, P)
+            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+            T = np.matmul(self.X0, P)
+        elif self.sudiremeth == "dr":
+            P = DR(
+                Xs,
+                ys,
+                self.n_slices,
+                self.n_components,
+                self.response_type,
+                self.center_data,
+                self.scale_data,
+            )
+            if self.scale_data:
+                P = np.matmul(N2, P)
+            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+            T = np.matmul(self.X0, P)
+        elif self.sudiremeth == "phd":
+            P = PHD(Xs, ys, self.n_components, self.center_data, self.scale_data)
+            if self.scale_data:
+                P = np.matmul(N2, P)
+            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+            T = np.matmul(self.X0, P)
+        elif self.sudiremeth == "iht":
+            P = IHT(Xs, ys, self.n_components, self.center_data, self.scale_data)
+            if self.scale_data:
+                P = np.matmul(N2, P)
+            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+            T = np.matmul(self.X0, P)
+        else:  # SDR obtained through optimization of some function
+
+            ## choose starting value for DCOV-SDR
+            if self.optimizer_start is None:
+                save_start = SAVE(
+                    Xs, ys, 3, self.n_components, self.center_data, self.scale_data
+                )
+                if self.scale_data:
+                    save_start = np.matmul(N2, save_start)
+                sir_start = SIR(
+                    Xs, ys, 6, self.n_components, self.center_data, self.scale_data
+                )
+                if self.scale_data:
+                    sir_start = np.matmul(N2, sir_start)
+                beta_save = orth(save_start)
+                dc_save = dc.distance_covariance_sqr(np.matmul(Xs, beta_save), y)
+                beta_sir = orth(sir_start)
+                dc_sir = dc.distance_covariance_sqr(np.matmul(Xs, beta_sir), y)
+                DR_start = DR(
+                    Xs, y, 6, self.n_components, self.center_data, self.scale_data
+                )
+                if self.scale_data:
+                    DR_start = np.matmul(N2, DR_start)
+                beta_DR = orth(DR_start)
+                dc_DR = dc.distance_covariance_sqr(np.matmul(Xs, beta_DR), y)
+                if dc_save >= dc_sir and dc_save >= dc_DR:
+                    self.optimizer_start = save_start.flatten(order="F")
+                elif dc_sir >= dc_save and dc_sir >= dc_DR:
+                    self.optimizer_start = sir_start.flatten(order="F")
+                else:
+                    self.optimizer_start = DR_start.flatten(order="F")
+            ## add constraints for the optimization
+            if self.optimizer_constraints is None:
+                const_x = []
+                const_z = []
+                for i in range(0, self.n_components):
+                    for j in range(0, self.n_components):
+                        const_x.append(
+                            {
+                                "type": "eq",
+                                "fun": const_xscale,
+                                "args": (Xs, self.n_components, i, j),
+                            }
+                        )  # change const2 to const_func
+                        const_z.append(
+                            {
+                                "type": "eq",
+                                "fun": const_zscale,
+                                "args": (Xs, self.n_components, i, j),
+                            }
+                        )
+                if self.scale_data:
+                    self.optimizer_constraints = tuple(const_z)
+                else:
+                    self.optimizer_constraints = tuple(const_x)
+            if self.optimizer_arguments is None:
+                N2 = inv(sqrtm(varmatx))
+                self.optimizer_arguments = (
+                    Xs,
+                    ys,
+                    self.n_components,
+                    N2,
+                    is_distance_mat,
+                    self.trimming,
+                    self.center,
+                    dmetric,
+                    biascorr,
+                )
+            # perform DCOV-SDR optimization
+            res = minimize_ipopt(
+                dcov_trim,
+                self.optimizer_start,
+                args=self.optimizer_arguments,
+                constraints=self.optimizer_constraints,
+                options=self.optimizer_options,
+            )
+            if self.scale_data:
+                dcov_res = np.matmul(
+                    N2, np.reshape(res.x, (-1, self.n_components), order="F")
+                )
+            else:
+                dcov_res = np.reshape(res.x, (-1, self.n_components), order="F")
+            if self.sudiremeth == "dcov-sdr":
+                P = dcov_res
+                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+                T = np.matmul(self.X0, P)
+            elif self.sudiremeth == "bcov-sdr":
+                self.optimizer_start = dcov_res.flatten(order="F")
+                res_ball = minimize_ipopt(
+                    ballcov_func,
+                    self.optimizer_start,
+                    args=self.optimizer_arguments,
+                    constraints=self.optimizer_constraints,
+                    options=self.optimizer_options,
+                )
+                if self.scale_data:
+                    P = np.matmul(
+                        N2, np.reshape(res_ball.x, (-1, self.n_components), order="F")
+                    )
+                else:
+                    P = np.reshape(res_ball.x, (-1, self.n_components), order="F")
+                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+                T = np.matmul(self.X0, P)
+            elif self.sudiremeth == "mdd-sdr":
+                self.optimizer_start = dcov_res.flatten(order="F")
+                res_mdd = minimize_ipopt(
+                    mdd_trim,
+                    self.optimizer_start,
+                    args=self.optimizer_arguments,
+                    constraints=self.optimizer_constraints,
+                    options=self.optimizer_options,
+                )
+                if self.scale_data:
+                    P = np.matmul(
+                        N2, np.reshape(res_mdd.x, (-1, self.n_components), order="F")
+                    )
+                else:
+                    P = np.reshape(res_mdd.x, (-1, self.n_components), order="F")
+                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+                T = np.matmul(self.X0, P)
+            else:  ## user defined function
+                self.optimizer_start = dcov_res.flatten(order="F")
+                opt_res = minimize_ipopt(
+                    self.sudiremeth,
+                    self.optimizer_start,
+                    args=self.optimizer_arguments,
+                    constraints=self.optimizer_constraints,
+                    options=self.optimizer_options,
+                )
+                if self.scale_data:
+                    P = np.matmul(
+                        N2, np.reshape(opt_res.x, (-1, self.n_components), order="F")
+                    )
+                else:
+                    P = np.reshape(opt_res.x, (-1, self.n_components), order="F")
+                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+                T = np.matmul(self.X0, P)
+        # perform OLS regression
+        T_reg = sm.add_constant(T)  # adding a constant
+        ols_obj = sm.OLS(ys, T_reg).fit()
+
+        # Re-adjust estimates to original dimensions if data have been compressed
+        if dimensions:
+            P = np.matmul(V[:, 0:p], P)
+        setattr(self, "x_loadings_", P)
+        setattr(self, "x_scores_", T)
+        setattr(self, "proj_mat_", projMat)
+        if self.whiten_data:
+            setattr(self, "whitening_", K)
+        setattr(self, "x_loc_", mX)
+        setattr(self, "x_sca_", sX)
+        setattr(self, "scaling_", scale)
+        setattr(self, "ols_obj_", ols_obj)
+        if self.return_scaling_object and self.center != "mean":
+            setattr(self, "scaling_object_", centring)
+        return self
+
+    def transform(self, Xn, distance_mat=False):
+        """
+        Computes the dimension reduction of the data Xn based on the fitted sudire model.
+
+        Parameters
+        ----------
+                Xn : matrix or data frame
+                     Input data to be transformed 
+
+                distance_mat : numpy array 
+                                 distance matrix to represent similarity between observations. 
+                
+                args or kwargs: 
+                                Further parameters to user defined sufdiremeth can be passed here  
+        Returns
+        -------
+        transformed_data : numpy array
+                             the dimension reduced data 
+
+         -------
+        """
+        Xn = convert_X_input(Xn)
+        (n, p) = Xn.shape
+        (q, h) = self.x_loadings_.shape
+        if p != q:
+            raise (
+                ValueError(
+                    "New data must have same number of columns as the ones the model has been trained with"
+                )
+            )
+        return np.matmul(Xn, self.x_loadings_)
+
+    def predict(self, Xn, is_distance_mat=False):
+        """
+        predicts the response  on new data Xn
+
+        Parameters
+        ----------
+                Xn : matrix or data frame
+                     Input data to be transformed 
+
+                is_distance_mat : bool 
+                                 if True, Xn is treated as a distance matrix 
+                
+        Returns
+        -------
+        predictions : numpy array 
+                      The predictions from the dimension reduction model
+        -------
+        """
+        Xn = convert_X_input(Xn)
+        (n, p) = Xn.shape
+        (q, h) = self.x_loadings_.shape
+        if p != q:
+            raise (
+                ValueError(
+                    "New data must have same number of columns as the ones the model has been trained with"
+                )
+            )
+        Xns = self.transform(Xn)
+        Xns = sm.add_constant(Xns, has_constant="add")  # adding a constant
+        ys = self.ols_obj_.predict(Xns)
+        return ys
+
+    @classmethod
+    def _get_param_names(cls):
+        """Get parameter names for the estimator"""
+        # fetch the constructor or the original constructor before
+        # deprecation wrapping if any
+        init = getattr(cls.__init__, "deprecated_original", cls.__init__)
+        if init is object.__init__:
+            # No explicit constructor to introspect
+            return []
+        # introspect the constructor arguments to find the model parameters
+        # to represent
+        init_signature = inspect.signature(init)
+        # Consider the constructor parameters excluding 'self'
+        parameters = [
+            p
+            for p in init_signature.parameters.values()
+            if p.name != "self" and p.kind != p.VAR_KEYWORD
+        ]
+        for p in parameters:
+            if p.kind == p.VAR_POSITIONAL:
+                raise RuntimeError(
+                    "scikit-learn estimators should always "
+                    "specify their parameters in the signature"
+                    " of their __init__ (no varargs)."
+                    " %s with constructor %s doesn't "
+                    " follow this convention." % (cls, init_signature)
+                )
+        # Extract and sort argument names excluding 'self'
+        return sorted([p.name for p in parameters])
+
+    def get_params(self, deep=False):
+        """Get parameters for this estimator.
+        Parameters
+        ----------
+        deep : boolean, optional
+            If True, will return the parameters for this estimator and
+            contained subobjects that are estimators.
+        Returns
+        -------
+        params : mapping of string to any
+            Parameter names mapped to their values.
+        ------
+        Copied from ScikitLlearn instead of imported to avoid 'deep=True'
+        """
+        out = dict()
+        for key in self._get_param_names():
+            value = getattr(self, key, None)
+            if deep and hasattr(value, "get_params"):
+                deep_items = value.get_params().items()
+                out.update((key + "__" + k, val) for k, val in deep_items)
+            out[key] = value
+        return out
+
+    def set_params(self, **params):
+        """Set the parameters of this estimator.
+        Copied from ScikitLearn, adapted to avoid calling 'deep=True'
+        
+        Returns
+        -------
+        self
+        ------
+        Copied from ScikitLlearn instead of imported to avoid 'deep=True'
+        """
+        if not params:
+            # Simple optimization to gain speed (inspect is slow)
+            return self
+        valid_params = self.get_params()
+
+        nested_params = defaultdict(dict)  # grouped by prefix
+        for key, value in params.items():
+            key, delim, sub_key = key.partition("__")
+            if key not in valid_params:
+                raise ValueError(
+                    "Invalid parameter %s for estimator %s. "
+                    "Check the list of available parameters "
+                    "with `estimator.get_params().keys()`." % (key, self)
+                )
+            if delim:
+                nested_params[key][sub_key] = value
+            else:
+                setattr(self, key, value)
+                valid_params[key] = value
+        for key, sub_params in nested_params.items():
+            valid_params[key].set_params(**sub_params)
+        return self
+
+
+def estimate_structural_dim(sudiremeth, Xn, y, B, *args, **kwargs):
+    """
+    Estimates the dimension of the central subspace using 
+    the sudiremeth.  This approach is based on the bootstrap method of Sheng and Yin (2016)
+    
+    Parameters
+    ----------
+
+        sudiremeth : str
+                    the SDR method to use in the estimation.
+
+        X :  numpy array or dataframe
+            Input X data
+
+        Y : vector or 1d matrix
+            Input Y data as 
+
+        B : int 
+            Number of bootstrap replications
+
+        kwargs:
+
+            n_slices: number of slices for SIR/SAVE/DR
+
+            center_data, bool : if the data  should be centered 
+
+            scale_data, bool :  if the data should be scaled
+
+            center, string :   which centering('mean', 'median')
+            
+    Returns
+    ----------     
+
+    h : int 
+        representing the dimension of the central subspace
+
+    ----------
+    """
+    if "n_slices" not in kwargs:
+        n_slices = 6
+    else:
+        n_slices = kwargs.pop("n_slices")
+    if "center_data" not in kwargs:
+        center_data = True
+    else:
+        center_data = kwargs.pop("center_data")
+    if "scale_data" not in kwargs:
+        scale_data = True
+    else:
+        scale_data = kwargs.pop("scale_data")
+    if "center" not in kwargs:
+        center = "mean"
+    else:
+        center = kwargs.pop("center")
+    Xn = convert_X_input(Xn)
+    y = convert_y_input(y)
+    n, p = Xn.shape
+
+    diff_b = []
+    mean_diff = []
+    for k in range(1, p + 1):
+        print("possible dim", k)
+        sdr = sudire(
+            sudiremeth,
+            center_data=center_data,
+            scale_data=scale_data,
+            center=center,
+            n_slices=n_slices,
+            n_components=k,
+        )
+        sdr.fit(Xn, y=y)
+        projMat = sdr.proj_mat_
+
+        for b in range(B):
+            idx = np.random.randint(0, n, n)
+            X_b = Xn[idx, :].copy()
+            sdr_b = sudire(
+                sudiremeth,
+                center_data=center_data,
+                scale_data=scale_data,
+                center=center,
+                n_slices=n_slices,
+                n_components=k,
+            )
+            sdr_b.fit(X_b, y=y)
+            projMat_b = sdr_b.proj_mat_
+            uh, sh, vh = np.linalg.svd(projMat - projMat_b)
+            diff_b.append(np.nanmax(sh))
+        mean_diff.append(np.mean(diff_b))
+    return (np.argmin(mean_diff) + 1, mean_diff)
-- 
2.43.0


From 03271951401700b39172b01b07040f2f74dc21c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:11 +0000
Subject: [PATCH 27/72] fix: inverse regression uses every class of a discrete
 response

---
 src/direpack/sudire/_sudire_utils.py | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/src/direpack/sudire/_sudire_utils.py b/src/direpack/sudire/_sudire_utils.py
index 781d1c7..16a9eca 100644
--- a/src/direpack/sudire/_sudire_utils.py
+++ b/src/direpack/sudire/_sudire_utils.py
@@ -218,13 +218,8 @@ def SIR(x, y, n_slices, d, ytype="continuous", center_data=True, scale_data=True
         ydis = discretize(y, n_slices)
     else:
         ydis = y
-    yless = ydis
-    ylabel = []
-    for i in range(n):
-        if np.var(yless) != 0:
-            ylabel.append(yless[0])
-            yless = yless[yless != yless[0]]
-    ylabel.append(yless[0])
+    ylabel = np.unique(ydis)
+    n_slices = len(ylabel)
     prob = []
     exy = []
 
@@ -282,13 +277,8 @@ def SAVE(x, y, n_slices, d, ytype="continuous", center_data=True, scale_data=Tru
         ydis = discretize(y, n_slices)
     else:
         ydis = y
-    yless = ydis
-    ylabel = []
-    for i in range(n):
-        if np.var(yless) != 0:
-            ylabel.append(yless[0])
-            yless = yless[yless != yless[0]]
-    ylabel.append(yless[0])
+    ylabel = np.unique(ydis)
+    n_slices = len(ylabel)
     prob = []
     for i in range(n_slices):
         prob.append(len(ydis[ydis == ylabel[i]]) / n)
@@ -353,13 +343,8 @@ def DR(x, y, n_slices, d, ytype="continuous", center_data=True, scale_data=True)
         ydis = discretize(y, n_slices)
     else:
         ydis = y
-    yless = ydis
-    ylabel = []
-    for i in range(n):
-        if np.var(yless) != 0:
-            ylabel.append(yless[0])
-            yless = yless[yless != yless[0]]
-    ylabel.append(yless[0])
+    ylabel = np.unique(ydis)
+    n_slices = len(ylabel)
     prob = []
     exy = []
 
-- 
2.43.0


From 02d045ae49393265595e2af9ace68cd9a1acc098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:31 +0000
Subject: [PATCH 28/72] fix: sudire with copy=False

---
 src/direpack/sudire/sudire.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 0b0021f..585ea2a 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -386,7 +386,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             if self.scale_data:
                 P = np.matmul(N2, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
+            T = np.matmul(X0, P)
         elif self.sudiremeth == "save":
             P = SAVE(
                 Xs,
@@ -400,7 +400,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             if self.scale_data:
                 P = np.matmul(N2, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
+            T = np.matmul(X0, P)
         elif self.sudiremeth == "dr":
             P = DR(
                 Xs,
@@ -414,19 +414,19 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             if self.scale_data:
                 P = np.matmul(N2, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
+            T = np.matmul(X0, P)
         elif self.sudiremeth == "phd":
             P = PHD(Xs, ys, self.n_components, self.center_data, self.scale_data)
             if self.scale_data:
                 P = np.matmul(N2, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
+            T = np.matmul(X0, P)
         elif self.sudiremeth == "iht":
             P = IHT(Xs, ys, self.n_components, self.center_data, self.scale_data)
             if self.scale_data:
                 P = np.matmul(N2, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
+            T = np.matmul(X0, P)
         else:  # SDR obtained through optimization of some function
 
             ## choose starting value for DCOV-SDR
@@ -512,7 +512,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             if self.sudiremeth == "dcov-sdr":
                 P = dcov_res
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(self.X0, P)
+                T = np.matmul(X0, P)
             elif self.sudiremeth == "bcov-sdr":
                 self.optimizer_start = dcov_res.flatten(order="F")
                 res_ball = minimize_ipopt(
@@ -529,7 +529,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 else:
                     P = np.reshape(res_ball.x, (-1, self.n_components), order="F")
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(self.X0, P)
+                T = np.matmul(X0, P)
             elif self.sudiremeth == "mdd-sdr":
                 self.optimizer_start = dcov_res.flatten(order="F")
                 res_mdd = minimize_ipopt(
@@ -546,7 +546,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 else:
                     P = np.reshape(res_mdd.x, (-1, self.n_components), order="F")
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(self.X0, P)
+                T = np.matmul(X0, P)
             else:  ## user defined function
                 self.optimizer_start = dcov_res.flatten(order="F")
                 opt_res = minimize_ipopt(
@@ -563,7 +563,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 else:
                     P = np.reshape(opt_res.x, (-1, self.n_components), order="F")
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(self.X0, P)
+                T = np.matmul(X0, P)
         # perform OLS regression
         T_reg = sm.add_constant(T)  # adding a constant
         ols_obj = sm.OLS(ys, T_reg).fit()
-- 
2.43.0


From 47ebdf7c5c3f959deafd2a8d6c3ae8078763f99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:31 +0000
Subject: [PATCH 29/72] fix: sudire maps directions back with the scale used
 for the data

---
 src/direpack/sudire/sudire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 585ea2a..0aa7bb4 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -326,6 +326,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 Xs = centring.fit_transform(X0)
                 mX = centring.col_loc_
                 sX = centring.col_sca_
+                N2 = np.diag(1 / np.ravel(sX))
             else:
                 raise (
                     MyException(
@@ -483,7 +484,6 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 else:
                     self.optimizer_constraints = tuple(const_x)
             if self.optimizer_arguments is None:
-                N2 = inv(sqrtm(varmatx))
                 self.optimizer_arguments = (
                     Xs,
                     ys,
-- 
2.43.0


From dd314816974f4bcbc15264f3c0c722af568fb7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:31 +0000
Subject: [PATCH 30/72] fix: responses in a data frame keep their rows

---
 src/direpack/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/utils/utils.py b/src/direpack/utils/utils.py
index a0637e5..f6b089e 100644
--- a/src/direpack/utils/utils.py
+++ b/src/direpack/utils/utils.py
@@ -24,7 +24,7 @@ def convert_X_input(X):
 def convert_y_input(y):
 
     if type(y) in [ps.core.frame.DataFrame, ps.core.series.Series]:
-        y = y.to_numpy().T.astype('float64')
+        y = y.to_numpy().astype('float64')
     return(y)
 
 
-- 
2.43.0


From c65a0913a41e621e1055c2b9194c496adadf5c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:31 +0000
Subject: [PATCH 31/72] fix: starting values of the optimisation based
 reductions slice the response

---
 src/direpack/sudire/sudire.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 0aa7bb4..1393e01 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -433,12 +433,12 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             ## choose starting value for DCOV-SDR
             if self.optimizer_start is None:
                 save_start = SAVE(
-                    Xs, ys, 3, self.n_components, self.center_data, self.scale_data
+                    Xs, ys, 3, self.n_components, self.response_type, self.center_data, self.scale_data
                 )
                 if self.scale_data:
                     save_start = np.matmul(N2, save_start)
                 sir_start = SIR(
-                    Xs, ys, 6, self.n_components, self.center_data, self.scale_data
+                    Xs, ys, 6, self.n_components, self.response_type, self.center_data, self.scale_data
                 )
                 if self.scale_data:
                     sir_start = np.matmul(N2, sir_start)
@@ -447,7 +447,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 beta_sir = orth(sir_start)
                 dc_sir = dc.distance_covariance_sqr(np.matmul(Xs, beta_sir), y)
                 DR_start = DR(
-                    Xs, y, 6, self.n_components, self.center_data, self.scale_data
+                    Xs, y, 6, self.n_components, self.response_type, self.center_data, self.scale_data
                 )
                 if self.scale_data:
                     DR_start = np.matmul(N2, DR_start)
-- 
2.43.0


From ad1437288d683769156681b91488ad4b86dc735b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:31 +0000
Subject: [PATCH 32/72] fix: optimisation based reductions leave start,
 constraints and arguments alone

---
 src/direpack/sudire/sudire.py | 51 ++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 1393e01..2499ba3 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -430,8 +430,11 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             T = np.matmul(X0, P)
         else:  # SDR obtained through optimization of some function
 
+            optimizer_start = self.optimizer_start
+            optimizer_constraints = self.optimizer_constraints
+            optimizer_arguments = self.optimizer_arguments
             ## choose starting value for DCOV-SDR
-            if self.optimizer_start is None:
+            if optimizer_start is None:
                 save_start = SAVE(
                     Xs, ys, 3, self.n_components, self.response_type, self.center_data, self.scale_data
                 )
@@ -454,13 +457,13 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 beta_DR = orth(DR_start)
                 dc_DR = dc.distance_covariance_sqr(np.matmul(Xs, beta_DR), y)
                 if dc_save >= dc_sir and dc_save >= dc_DR:
-                    self.optimizer_start = save_start.flatten(order="F")
+                    optimizer_start = save_start.flatten(order="F")
                 elif dc_sir >= dc_save and dc_sir >= dc_DR:
-                    self.optimizer_start = sir_start.flatten(order="F")
+                    optimizer_start = sir_start.flatten(order="F")
                 else:
-                    self.optimizer_start = DR_start.flatten(order="F")
+                    optimizer_start = DR_start.flatten(order="F")
             ## add constraints for the optimization
-            if self.optimizer_constraints is None:
+            if optimizer_constraints is None:
                 const_x = []
                 const_z = []
                 for i in range(0, self.n_components):
@@ -480,11 +483,11 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                             }
                         )
                 if self.scale_data:
-                    self.optimizer_constraints = tuple(const_z)
+                    optimizer_constraints = tuple(const_z)
                 else:
-                    self.optimizer_constraints = tuple(const_x)
-            if self.optimizer_arguments is None:
-                self.optimizer_arguments = (
+                    optimizer_constraints = tuple(const_x)
+            if optimizer_arguments is None:
+                optimizer_arguments = (
                     Xs,
                     ys,
                     self.n_components,
@@ -498,9 +501,9 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             # perform DCOV-SDR optimization
             res = minimize_ipopt(
                 dcov_trim,
-                self.optimizer_start,
-                args=self.optimizer_arguments,
-                constraints=self.optimizer_constraints,
+                optimizer_start,
+                args=optimizer_arguments,
+                constraints=optimizer_constraints,
                 options=self.optimizer_options,
             )
             if self.scale_data:
@@ -514,12 +517,12 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
                 T = np.matmul(X0, P)
             elif self.sudiremeth == "bcov-sdr":
-                self.optimizer_start = dcov_res.flatten(order="F")
+                optimizer_start = dcov_res.flatten(order="F")
                 res_ball = minimize_ipopt(
                     ballcov_func,
-                    self.optimizer_start,
-                    args=self.optimizer_arguments,
-                    constraints=self.optimizer_constraints,
+                    optimizer_start,
+                    args=optimizer_arguments,
+                    constraints=optimizer_constraints,
                     options=self.optimizer_options,
                 )
                 if self.scale_data:
@@ -531,12 +534,12 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
                 T = np.matmul(X0, P)
             elif self.sudiremeth == "mdd-sdr":
-                self.optimizer_start = dcov_res.flatten(order="F")
+                optimizer_start = dcov_res.flatten(order="F")
                 res_mdd = minimize_ipopt(
                     mdd_trim,
-                    self.optimizer_start,
-                    args=self.optimizer_arguments,
-                    constraints=self.optimizer_constraints,
+                    optimizer_start,
+                    args=optimizer_arguments,
+                    constraints=optimizer_constraints,
                     options=self.optimizer_options,
                 )
                 if self.scale_data:
@@ -548,12 +551,12 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
                 T = np.matmul(X0, P)
             else:  ## user defined function
-                self.optimizer_start = dcov_res.flatten(order="F")
+                optimizer_start = dcov_res.flatten(order="F")
                 opt_res = minimize_ipopt(
                     self.sudiremeth,
-                    self.optimizer_start,
-                    args=self.optimizer_arguments,
-                    constraints=self.optimizer_constraints,
+                    optimizer_start,
+                    args=optimizer_arguments,
+                    constraints=optimizer_constraints,
                     options=self.optimizer_options,
                 )
                 if self.scale_data:
-- 
2.43.0


From 9279b2e1976dae899cde60f292955cf0fd5ee619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:31 +0000
Subject: [PATCH 33/72] fix: bootstrap resamples predictors and response
 together

---
 src/direpack/sudire/sudire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 2499ba3..370408c 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -822,7 +822,7 @@ def estimate_structural_dim(sudiremeth, Xn, y, B, *args, **kwargs):
                 n_slices=n_slices,
                 n_components=k,
             )
-            sdr_b.fit(X_b, y=y)
+            sdr_b.fit(X_b, y=y[idx])
             projMat_b = sdr_b.proj_mat_
             uh, sh, vh = np.linalg.svd(projMat - projMat_b)
             diff_b.append(np.nanmax(sh))
-- 
2.43.0


From 3ef6862ccd8feb7f50bcbf304273c6c6abb5e355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:31 +0000
Subject: [PATCH 34/72] fix: sudire reports the response location and scale

---
 src/direpack/sudire/sudire.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 370408c..75da315 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -581,6 +581,8 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             setattr(self, "whitening_", K)
         setattr(self, "x_loc_", mX)
         setattr(self, "x_sca_", sX)
+        setattr(self, "y_loc_", my)
+        setattr(self, "y_sca_", sy)
         setattr(self, "scaling_", scale)
         setattr(self, "ols_obj_", ols_obj)
         if self.return_scaling_object and self.center != "mean":
-- 
2.43.0


From 8322709d7bee9c8697109375488a3dbb980bedcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:20 +0000
Subject: [PATCH 35/72] fix: optimisation based reductions start in the
 coordinates of the optimised data

---
 src/direpack/sudire/sudire.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 75da315..73cde78 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -438,13 +438,9 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 save_start = SAVE(
                     Xs, ys, 3, self.n_components, self.response_type, self.center_data, self.scale_data
                 )
-                if self.scale_data:
-                    save_start = np.matmul(N2, save_start)
                 sir_start = SIR(
                     Xs, ys, 6, self.n_components, self.response_type, self.center_data, self.scale_data
                 )
-                if self.scale_data:
-                    sir_start = np.matmul(N2, sir_start)
                 beta_save = orth(save_start)
                 dc_save = dc.distance_covariance_sqr(np.matmul(Xs, beta_save), y)
                 beta_sir = orth(sir_start)
@@ -452,8 +448,6 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 DR_start = DR(
                     Xs, y, 6, self.n_components, self.response_type, self.center_data, self.scale_data
                 )
-                if self.scale_data:
-                    DR_start = np.matmul(N2, DR_start)
                 beta_DR = orth(DR_start)
                 dc_DR = dc.distance_covariance_sqr(np.matmul(Xs, beta_DR), y)
                 if dc_save >= dc_sir and dc_save >= dc_DR:
@@ -517,7 +511,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
                 T = np.matmul(X0, P)
             elif self.sudiremeth == "bcov-sdr":
-                optimizer_start = dcov_res.flatten(order="F")
+                optimizer_start = res.x
                 res_ball = minimize_ipopt(
                     ballcov_func,
                     optimizer_start,
@@ -534,7 +528,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
                 T = np.matmul(X0, P)
             elif self.sudiremeth == "mdd-sdr":
-                optimizer_start = dcov_res.flatten(order="F")
+                optimizer_start = res.x
                 res_mdd = minimize_ipopt(
                     mdd_trim,
                     optimizer_start,
@@ -551,7 +545,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
                 T = np.matmul(X0, P)
             else:  ## user defined function
-                optimizer_start = dcov_res.flatten(order="F")
+                optimizer_start = res.x
                 opt_res = minimize_ipopt(
                     self.sudiremeth,
                     optimizer_start,
-- 
2.43.0


From ac5c11161875c2dc166b16b6c4410b206eba2b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:20 +0000
Subject: [PATCH 36/72] fix: whitening in sudire leaves the parameters alone

---
 src/direpack/sudire/sudire.py | 58 ++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 73cde78..faeae6f 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -263,10 +263,12 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 )
             )
         # Pre-processing adjustment if whitening
+        center_data, scale_data = self.center_data, self.scale_data
+        compression = self.compression
         if self.whiten_data:
-            self.center_data = True
-            self.scale_data = False
-            self.compression = False
+            center_data = True
+            scale_data = False
+            compression = False
             print("All results produced are for whitened data")
         # Store original X data mean and varcov matrix.
         varmatx = np.cov(X, rowvar=0)
@@ -274,7 +276,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         N2 = inv(sqrtm(varmatx))
 
         # Data Compression for flat tables if required
-        if (p > n) and self.compression:
+        if (p > n) and compression:
             V, S, U = np.linalg.svd(X.T, full_matrices=False)
             X = np.matmul(U.T, np.diag(S))
             n, p = X.shape
@@ -297,7 +299,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
 
             # Centring and scaling
             # centering :
-        if self.center_data:
+        if center_data:
             if self.center != "mean":
                 centring = VersatileScaler(
                     center=self.center, scale="None", trimming=self.trimming
@@ -313,7 +315,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             Xs = X0
             mX = np.zeros((1, p))
             sX = np.ones((1, p))
-        if self.scale_data:
+        if scale_data:
             if self.center == "mean":
                 scale = "std"
                 N2 = inv(sqrtm(varmatx))
@@ -363,7 +365,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             if self.copy:
                 y0 = copy.deepcopy(y)
                 self.y0 = y0
-            if self.center_data:
+            if center_data:
                 ys = y  # dont center y
                 my = np.mean(y, axis=0)
                 sy = np.sqrt(np.var(y, axis=0))
@@ -381,10 +383,10 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 self.n_slices,
                 self.n_components,
                 self.response_type,
-                self.center_data,
-                self.scale_data,
+                center_data,
+                scale_data,
             )
-            if self.scale_data:
+            if scale_data:
                 P = np.matmul(N2, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
             T = np.matmul(X0, P)
@@ -395,10 +397,10 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 self.n_slices,
                 self.n_components,
                 self.response_type,
-                self.center_data,
-                self.scale_data,
+                center_data,
+                scale_data,
             )
-            if self.scale_data:
+            if scale_data:
                 P = np.matmul(N2, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
             T = np.matmul(X0, P)
@@ -409,22 +411,22 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 self.n_slices,
                 self.n_components,
                 self.response_type,
-                self.center_data,
-                self.scale_data,
+                center_data,
+                scale_data,
             )
-            if self.scale_data:
+            if scale_data:
                 P = np.matmul(N2, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
             T = np.matmul(X0, P)
         elif self.sudiremeth == "phd":
-            P = PHD(Xs, ys, self.n_components, self.center_data, self.scale_data)
-            if self.scale_data:
+            P = PHD(Xs, ys, self.n_components, center_data, scale_data)
+            if scale_data:
                 P = np.matmul(N2, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
             T = np.matmul(X0, P)
         elif self.sudiremeth == "iht":
-            P = IHT(Xs, ys, self.n_components, self.center_data, self.scale_data)
-            if self.scale_data:
+            P = IHT(Xs, ys, self.n_components, center_data, scale_data)
+            if scale_data:
                 P = np.matmul(N2, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
             T = np.matmul(X0, P)
@@ -436,17 +438,17 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             ## choose starting value for DCOV-SDR
             if optimizer_start is None:
                 save_start = SAVE(
-                    Xs, ys, 3, self.n_components, self.response_type, self.center_data, self.scale_data
+                    Xs, ys, 3, self.n_components, self.response_type, center_data, scale_data
                 )
                 sir_start = SIR(
-                    Xs, ys, 6, self.n_components, self.response_type, self.center_data, self.scale_data
+                    Xs, ys, 6, self.n_components, self.response_type, center_data, scale_data
                 )
                 beta_save = orth(save_start)
                 dc_save = dc.distance_covariance_sqr(np.matmul(Xs, beta_save), y)
                 beta_sir = orth(sir_start)
                 dc_sir = dc.distance_covariance_sqr(np.matmul(Xs, beta_sir), y)
                 DR_start = DR(
-                    Xs, y, 6, self.n_components, self.response_type, self.center_data, self.scale_data
+                    Xs, y, 6, self.n_components, self.response_type, center_data, scale_data
                 )
                 beta_DR = orth(DR_start)
                 dc_DR = dc.distance_covariance_sqr(np.matmul(Xs, beta_DR), y)
@@ -476,7 +478,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                                 "args": (Xs, self.n_components, i, j),
                             }
                         )
-                if self.scale_data:
+                if scale_data:
                     optimizer_constraints = tuple(const_z)
                 else:
                     optimizer_constraints = tuple(const_x)
@@ -500,7 +502,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 constraints=optimizer_constraints,
                 options=self.optimizer_options,
             )
-            if self.scale_data:
+            if scale_data:
                 dcov_res = np.matmul(
                     N2, np.reshape(res.x, (-1, self.n_components), order="F")
                 )
@@ -519,7 +521,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                     constraints=optimizer_constraints,
                     options=self.optimizer_options,
                 )
-                if self.scale_data:
+                if scale_data:
                     P = np.matmul(
                         N2, np.reshape(res_ball.x, (-1, self.n_components), order="F")
                     )
@@ -536,7 +538,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                     constraints=optimizer_constraints,
                     options=self.optimizer_options,
                 )
-                if self.scale_data:
+                if scale_data:
                     P = np.matmul(
                         N2, np.reshape(res_mdd.x, (-1, self.n_components), order="F")
                     )
@@ -553,7 +555,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                     constraints=optimizer_constraints,
                     options=self.optimizer_options,
                 )
-                if self.scale_data:
+                if scale_data:
                     P = np.matmul(
                         N2, np.reshape(opt_res.x, (-1, self.n_components), order="F")
                     )
-- 
2.43.0


From 3154b2ab57c8c18d2dd6d272e4d093bf4d4d95ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:48 +0000
Subject: [PATCH 37/72] fix: sudire maps directions back from whitened data

---
 src/direpack/sudire/sudire.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index faeae6f..631a5de 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -347,6 +347,9 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             del S
             Xs = np.matmul(Xs, K)
             Xs *= np.sqrt(p)
+            # directions are found for the whitened data and mapped back
+            N2 = K * np.sqrt(p)
+            scale_data = True
         # Pre-process y data
         ny = y.shape[0]
         y = convert_y_input(y)
-- 
2.43.0


From c994e72ebbe5c1f95d531e3603ae6f33098c382e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:48 +0000
Subject: [PATCH 38/72] fix: whitening in ppdire leaves the parameters alone

---
 src/direpack/ppdire/ppdire.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index e27e8e5..7d71722 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -311,14 +311,16 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             warnings.warn('Whitening step is recommended for ICA')
             
         # Pre-processing adjustment if whitening
+        center_data, do_scale = self.center_data, self.scale_data
+        compression = self.compression
         if self.whiten_data:
-            self.center_data = True
-            self.scale_data = False
-            self.compression = False
+            center_data = True
+            do_scale = False
+            compression = False
             print('All results produced are for whitened data')
         
         # Centring and scaling
-        if self.scale_data:
+        if do_scale:
             if self.center=='mean':
                 scale = 'std'
             elif ((self.center=='median')|(self.center=='l1median')):
@@ -328,7 +330,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             warnings.warn('Without scaling, convergence to optima is not given')
             
          # Data Compression for flat tables if required                
-        if ((p>n) and self.compression):
+        if ((p>n) and compression):
             V,S,U = np.linalg.svd(X.T,full_matrices=False)
             X = np.matmul(U.T,np.diag(S))
             n,p = X.shape
@@ -349,7 +351,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
         # Initiate centring object and scale X data 
         centring = VersatileScaler(center=self.center,scale=scale,trimming=trimming)      
   
-        if self.center_data:
+        if center_data:
             Xs = centring.fit_transform(X)
             mX = centring.col_loc_
             sX = centring.col_sca_
@@ -383,7 +385,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                 y0 = copy.deepcopy(y)
                 self.y0 = y0
                 
-            if self.center_data:
+            if center_data:
                 ys = centring.fit_transform(y)
                 my = centring.col_loc_
                 sy = centring.col_sca_ 
@@ -698,7 +700,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             P = np.matmul(V[:,0:p],P)
             bi = B[:,[h-1]]
             bi_scaled = B_scaled[:,[h-1]]
-            if self.center_data:
+            if center_data:
                 Xs = centring.fit_transform(X0)
                 mX = centring.col_loc_
                 sX = centring.col_sca_
-- 
2.43.0


From 7f31c348367fca365645a388484c601dc6708a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:48 +0000
Subject: [PATCH 39/72] fix: ppdire on whitened data

---
 src/direpack/ppdire/ppdire.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 7d71722..7b28e13 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -641,7 +641,6 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             pi = np.dot(E.T,ti) / (nti**2)
             if self.whiten_data:
                 wi /= np.sqrt((wi**2).sum())
-                wi = K*wi
             wi0 = wi
             wi = np.array(wi)
             if len(W[:,i].shape) == 1:
@@ -665,6 +664,8 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
  
             # Calculate R-Weights
             R = np.dot(W[:,0:(i+1)],pinv(np.dot(P[:,0:(i+1)].T,W[:,0:(i+1)]),check_finite=False))
+            if self.whiten_data:
+                R = np.sqrt(p)*np.dot(K,R)
         
             # Execute regression y~T if y is present. Generate regression estimates.
             if flag != 'one-block':
@@ -691,6 +692,9 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
 
         # endfor; Loop for latent dimensions
 
+        if self.whiten_data:
+            W = np.dot(K,W)
+
         # Re-adjust estimates to original dimensions if data have been compressed 
         if dimensions:
             B = np.matmul(V[:,0:p],B)
-- 
2.43.0


From f5b2e5f4bb206a961d755615c4ff0e66797dd97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:48 +0000
Subject: [PATCH 40/72] fix: ppdire reports the explained variance of the
 predictors

---
 src/direpack/ppdire/ppdire.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 7b28e13..933da8d 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -661,6 +661,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
 
             # Deflation of the datamatrix guaranteeing orthogonality restrictions
             E -= ti*pi.T
+            Xev[i] = 100*(nti*np.linalg.norm(pi)/np.linalg.norm(Xs))**2
  
             # Calculate R-Weights
             R = np.dot(W[:,0:(i+1)],pinv(np.dot(P[:,0:(i+1)].T,W[:,0:(i+1)]),check_finite=False))
-- 
2.43.0


From 1205c3a06b7a88c0a526f51d35d2caeb92a2d720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:27 +0000
Subject: [PATCH 41/72] fix: square_pi is honoured by every optimizer

---
 src/direpack/ppdire/_ppdire_utils.py | 7 +++++--
 src/direpack/ppdire/ppdire.py        | 8 ++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/direpack/ppdire/_ppdire_utils.py b/src/direpack/ppdire/_ppdire_utils.py
index 7095569..0f73012 100644
--- a/src/direpack/ppdire/_ppdire_utils.py
+++ b/src/direpack/ppdire/_ppdire_utils.py
@@ -10,7 +10,7 @@ import numpy as np
 import pandas as ps
 
 
-def pp_objective(x,est,X,opt_args):
+def pp_objective(x,est,X,opt_args,square_pi=False):
     
     """
     Optimization objective for ppdire 
@@ -19,7 +19,10 @@ def pp_objective(x,est,X,opt_args):
     
     n = len(x)
     x = np.array(x).reshape((n,1))
-    return(-est.fit(np.matmul(X,x),**opt_args))
+    value = est.fit(np.matmul(X,x),**opt_args)
+    if square_pi:
+        value *= value
+    return(-value)
 
 def gridplane(X,most,pi_arguments={},**kwargs):
 
diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 933da8d..1b4dc83 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -590,7 +590,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                 wi = minimize_ipopt(
                     pp_objective,
                     E[0,:].transpose(),
-                    args=(self.most,E,opt_args),
+                    args=(self.most,E,opt_args,self.square_pi),
                     constraints=constraint,
                     options=self.optimizer_options,
                 ).x
@@ -606,7 +606,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                     [(-1e8,1e8) for i in range(p)],
                     x0=E[0,:].transpose(),
                     popsize=100,
-                    args=(self.most,E,opt_args),
+                    args=(self.most,E,opt_args,self.square_pi),
                     constraints=constraint,
                 ).x
                 wi = np.array(wi).reshape((p,1))
@@ -625,7 +625,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                     constraint = [constraint,self.optimizer_constraints]
                 wi = minimize(pp_objective,
                               E[0,:].transpose(),
-                              args=(self.most,E,opt_args),
+                              args=(self.most,E,opt_args,self.square_pi),
                               method=self.optimizer,
                               constraints=constraint,
                               options=self.optimizer_options).x
@@ -636,7 +636,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             # Computing projection weights and scores
             ti = np.dot(E,wi)
             if self.optimizer != 'grid':
-                Maxobjf[i] = self.most.fit(np.dot(E,wi),**opt_args)
+                Maxobjf[i] = -pp_objective(wi,self.most,E,opt_args,self.square_pi)
             nti = np.linalg.norm(ti)
             pi = np.dot(E.T,ti) / (nti**2)
             if self.whiten_data:
-- 
2.43.0


From 18f71b617236cd9427c0bb51f9be1f9e21122cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:37 +0000
Subject: [PATCH 42/72] fix: scores of new data without centring

---
 src/direpack/ppdire/ppdire.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 1b4dc83..bc103e6 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -357,8 +357,8 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             sX = centring.col_sca_
         else:
             Xs = X
-            mX = np.zeros((1,p))
-            sX = np.ones((1,p))
+            mX = np.zeros(p)
+            sX = np.ones(p)
 
         fit_arguments = {}
             
@@ -711,8 +711,8 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                 sX = centring.col_sca_
             else:
                 Xs = X0
-                mX = np.zeros((1,p))
-                sX = np.ones((1,p))
+                mX = np.zeros(X0.shape[1])
+                sX = np.ones(X0.shape[1])
         
         bi = bi.astype("float64")
         if flag != 'one-block':            
-- 
2.43.0


From f7f2f7db147e9eeef5d4b7778a222269fa54a7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:55 +0000
Subject: [PATCH 43/72] fix: projection index is optimised over unit vectors

---
 src/direpack/ppdire/_ppdire_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/direpack/ppdire/_ppdire_utils.py b/src/direpack/ppdire/_ppdire_utils.py
index 0f73012..09fde5b 100644
--- a/src/direpack/ppdire/_ppdire_utils.py
+++ b/src/direpack/ppdire/_ppdire_utils.py
@@ -19,6 +19,9 @@ def pp_objective(x,est,X,opt_args,square_pi=False):
     
     n = len(x)
     x = np.array(x).reshape((n,1))
+    nx = np.linalg.norm(x)
+    if nx > 0: # the index is maximised over unit vectors
+        x = x/nx
     value = est.fit(np.matmul(X,x),**opt_args)
     if square_pi:
         value *= value
-- 
2.43.0


From 79c67b7049dcccd0dcea52a1c3542a059be43b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:22 +0000
Subject: [PATCH 44/72] fix: grid search for two variables covers both signs

---
 src/direpack/ppdire/ppdire.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index bc103e6..19711f7 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -493,6 +493,12 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                     wi,maximo = gridplane(E,self.most,
                                           pi_arguments=opt_args
                                           )
+                    if not self.square_pi: # the grid covers half a circle
+                        wneg,maxneg = gridplane(-E,self.most,
+                                                pi_arguments=opt_args
+                                                )
+                        if maxneg > maximo:
+                            wi,maximo = -wneg,maxneg
                     Maxobjf[i] = maximo
            
                 elif p>2:
-- 
2.43.0


From c5f63b5d19af20580ef29636a2b0931bc598e712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:00 +0000
Subject: [PATCH 45/72] fix: grid refinement skips the combination that cancels
 out

---
 src/direpack/ppdire/_ppdire_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/direpack/ppdire/_ppdire_utils.py b/src/direpack/ppdire/_ppdire_utils.py
index 09fde5b..5830c9d 100644
--- a/src/direpack/ppdire/_ppdire_utils.py
+++ b/src/direpack/ppdire/_ppdire_utils.py
@@ -185,7 +185,8 @@ def gridplane_2(X,most,q,div,pi_arguments={},**kwargs):
         meas = [most.fit(tj[:,i],**pi_arguments) 
         for i in np.arange(0,pi_arguments['ndir'])]
 
-    maximo = np.max(meas)
+    # undefined where both terms of the combination cancel
+    maximo = np.nanmax(meas)
     indmax = np.where(meas == maximo)[0]
     if len(indmax)>0:
         indmax = indmax[0]
-- 
2.43.0


From c8ceb2d77eb818acbc20a19ba16222e5681e2f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:06 +0000
Subject: [PATCH 46/72] fix: squared projection index is optimised through its
 absolute value

---
 src/direpack/ppdire/_ppdire_utils.py | 4 ++--
 src/direpack/ppdire/ppdire.py        | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/direpack/ppdire/_ppdire_utils.py b/src/direpack/ppdire/_ppdire_utils.py
index 5830c9d..cd4e399 100644
--- a/src/direpack/ppdire/_ppdire_utils.py
+++ b/src/direpack/ppdire/_ppdire_utils.py
@@ -23,8 +23,8 @@ def pp_objective(x,est,X,opt_args,square_pi=False):
     if nx > 0: # the index is maximised over unit vectors
         x = x/nx
     value = est.fit(np.matmul(X,x),**opt_args)
-    if square_pi:
-        value *= value
+    if square_pi: # same maximum as the squared index, better conditioned
+        value = abs(value)
     return(-value)
 
 def gridplane(X,most,pi_arguments={},**kwargs):
diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 19711f7..3af9947 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -642,7 +642,9 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             # Computing projection weights and scores
             ti = np.dot(E,wi)
             if self.optimizer != 'grid':
-                Maxobjf[i] = -pp_objective(wi,self.most,E,opt_args,self.square_pi)
+                Maxobjf[i] = self.most.fit(np.dot(E,wi),**opt_args)
+                if self.square_pi:
+                    Maxobjf[i] *= Maxobjf[i]
             nti = np.linalg.norm(ti)
             pi = np.dot(E.T,ti) / (nti**2)
             if self.whiten_data:
-- 
2.43.0


From 8948d48db6911e4f607b97fe39fa83dded9366e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:55 +0000
Subject: [PATCH 47/72] fix: grid search skips directions in which nothing is
 left of the data

---
 src/direpack/ppdire/_ppdire_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/direpack/ppdire/_ppdire_utils.py b/src/direpack/ppdire/_ppdire_utils.py
index cd4e399..9c9567d 100644
--- a/src/direpack/ppdire/_ppdire_utils.py
+++ b/src/direpack/ppdire/_ppdire_utils.py
@@ -100,7 +100,8 @@ def gridplane(X,most,pi_arguments={},**kwargs):
         meas = [most.fit(tj[:,i],**pi_arguments) 
         for i in np.arange(0,pi_arguments['ndir'])]
         
-    maximo = np.max(meas)
+    # undefined where nothing is left of the data
+    maximo = np.nanmax(meas)
     indmax = np.where(meas == maximo)[0]
     if len(indmax)>0:
         indmax = indmax[0]
-- 
2.43.0


From 519d8fad1a575a68cd262e9200e5eb0e93468761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:35 +0000
Subject: [PATCH 48/72] fix: sudire with center='median' on raw data

---
 src/direpack/sudire/sudire.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 631a5de..f2250ef 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -584,7 +584,11 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         setattr(self, "y_sca_", sy)
         setattr(self, "scaling_", scale)
         setattr(self, "ols_obj_", ols_obj)
-        if self.return_scaling_object and self.center != "mean":
+        if (
+            self.return_scaling_object
+            and self.center != "mean"
+            and (center_data or scale_data)
+        ):
             setattr(self, "scaling_object_", centring)
         return self
 
-- 
2.43.0


From f0e96c2b71a2f6246f7905c250c1364537f8dd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:35 +0000
Subject: [PATCH 49/72] fix: sudire uses the distance metric it was given

---
 src/direpack/sudire/sudire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index f2250ef..3f142b1 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -230,7 +230,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         # Collect optional fit arguments
 
         if "dmetric" not in kwargs:
-            dmetric = "euclidean"
+            dmetric = self.dmetric
         else:
             dmetric = kwargs.get("dmetric")
         if "biascorr" not in kwargs:
-- 
2.43.0


From 27fb9ef4b760c0c21538ae80320b2f74c16c9117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:35 +0000
Subject: [PATCH 50/72] fix: optimiser wrapper leaves the options alone

---
 src/direpack/ipopt_temp/ipopt_wrapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/direpack/ipopt_temp/ipopt_wrapper.py b/src/direpack/ipopt_temp/ipopt_wrapper.py
index a855b0c..874b8b7 100644
--- a/src/direpack/ipopt_temp/ipopt_wrapper.py
+++ b/src/direpack/ipopt_temp/ipopt_wrapper.py
@@ -207,6 +207,8 @@ def minimize_ipopt(fun, x0, args=(), kwargs=None, method=None, jac=None, hess=No
 
     if options is None:
         options = {}
+    else:
+        options = dict(options)
 
     nlp = cyipopt.Problem(n = len(_x0),
                           m = len(cl),
-- 
2.43.0


From a1f970f5cc3b033ed1be132140bed03b4b89d54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:54 +0000
Subject: [PATCH 51/72] fix: capi keeps its centring parameter and honours
 set_params

---
 src/direpack/ppdire/capi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/direpack/ppdire/capi.py b/src/direpack/ppdire/capi.py
index 312faf9..027eabd 100644
--- a/src/direpack/ppdire/capi.py
+++ b/src/direpack/ppdire/capi.py
@@ -67,6 +67,7 @@ class capi(_BaseComposition, BaseEstimator):
         self.pi_arguments = pi_arguments
         self.weights = weights
         self.most = self.projection_index(**self.pi_arguments)
+        self.centring = centring
         self.scaling = scaling
         self.options = options
         self.capi_index_ = None
@@ -75,6 +76,7 @@ class capi(_BaseComposition, BaseEstimator):
 
     def fit(self, x, y, **kwargs):
 
+        self.most = self.projection_index(**self.pi_arguments)
         if self.scaling:
             order_kwargs = ["cov", "cos", "cok"]
         else:
-- 
2.43.0


From 97c33f4d1bbce10b31ef4059f45958e80ec94f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:34 +0000
Subject: [PATCH 52/72] fix: robust loss accepts pandas series

---
 src/direpack/cross_validation/_cv_support_functions.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/direpack/cross_validation/_cv_support_functions.py b/src/direpack/cross_validation/_cv_support_functions.py
index 44c1458..7a050ab 100644
--- a/src/direpack/cross_validation/_cv_support_functions.py
+++ b/src/direpack/cross_validation/_cv_support_functions.py
@@ -46,12 +46,8 @@ def robust_loss(y,ypred,lfun=mean_squared_error,fun=Hampel,probct=norm.ppf(0.975
         loss, float
     """            
     
-    if len(ypred.shape) > 1:
-        ypred = np.array(ypred).reshape(-1)
-    ypred = ypred.astype('float64')
-    if len(y.shape) > 1:
-        y = np.array(y).reshape(-1)
-    y = y.astype('float64')
+    ypred = np.array(ypred).reshape(-1).astype('float64')
+    y = np.array(y).reshape(-1).astype('float64')
     r = y - ypred
     w = fun(np.abs(r),probct,hampelb,hampelr)
     return(lfun(y,ypred,sample_weight=w))
-- 
2.43.0


From abfdb71fe7cb2b49615292db83bbbd2a80994342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:34 +0000
Subject: [PATCH 53/72] fix: plots label every case, at its own position

---
 src/direpack/plot/ppdire_plot.py | 314 +++++++++++++++----------------
 src/direpack/plot/sprm_plot.py   |  14 +-
 src/direpack/plot/sudire_plot.py | 310 +++++++++++++++---------------
 3 files changed, 319 insertions(+), 319 deletions(-)

diff --git a/src/direpack/plot/ppdire_plot.py b/src/direpack/plot/ppdire_plot.py
index 147bbf3..65875c2 100644
--- a/src/direpack/plot/ppdire_plot.py
+++ b/src/direpack/plot/ppdire_plot.py
@@ -1,157 +1,157 @@
-# -*- coding: utf-8 -*-
-"""
-Created on Sat Apr 11 17:25:42 2020
-
-@author: Emmanuel Jordy Menvouta & Sven Serneels
-"""
-
-from __future__ import absolute_import, division, print_function
-from __future__ import unicode_literals
-
-
-
-from ..ppdire.ppdire import ppdire
-from ..utils.utils import MyException
-import matplotlib.pyplot as pp 
-import numpy as np
-
-
-class ppdire_plot(ppdire):
-    
-    def __init__(self,res_ppdire,colors,markers=['o','d','v'],*args):
-        """
-        Initialize with 
-        res_ppdire, a ppdire class object
-        
-        Only mandatory input is colors, a list of colors for 
-            [0] borders of pane 
-            [1] plot background
-            [2] marker fill
-            [3] diagonal line 
-            [4] marker contour, if different from fill
-            [5] marker color for new cases, if applicable
-               
-        """
-        if not(isinstance(res_ppdire,ppdire)):
-            raise(MyException("Object supplied to ppdireplot needs to be a ppdire object"))
-        self.res_ppdire = res_ppdire
-        self.colors = colors
-        self.markers = markers
-        
-    def plot_yyp(self,ytruev=[],Xn=[],label=[],names=[],namesv=[],title=[],legend_pos='lower right',onlyval=False):
-        """
-        plot_yyp will plot y vs y predicted for ppdire M opbjects
-        Optional inputs: 
-            ytruev: array (new_cases,) of predictands
-            Xn: array (new_cases,variables) of predictors 
-            If these arguments are supplied, ppdire predictions for ytrue will be 
-                made from Xn through res_ppdire.predict()
-            label: string: name of variable to be plotted. Will show in legend.
-            names: list or tuple of strings, casenames from training set
-            namesv: list or tuple of strings, casenames from test set
-            title: String containing plot title
-            legend_pos: string containing legend position
-            onlyval: boolean: only plot validation cases
-        """
-        
-        if len(label)==0:
-            label = 'none'
-        fig = pp.figure()
-        fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
-        ax1 = fig.add_subplot(111)
-        if (not(onlyval)):
-            ytruec = self.res_ppdire.y0
-            if len(ytruec.shape) >1:
-                ytruec = np.array(ytruec).reshape(-1).astype('float64')
-            ypredc = np.array(self.res_ppdire.fitted_).T.reshape(-1)
-            labelcr = label + ' Training'
-            ax1.scatter(ytruec, ypredc, c=self.colors[2], label=labelcr,
-                    zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
-            pp.xlabel("y-true")
-            pp.ylabel("y-pred")
-            
-        else:
-            if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
-        if not(len(Xn)==0):
-            if len(ytruev.shape) >1:
-                ytruev = np.array(ytruev).reshape(-1).astype('float64')
-            ypredv = self.res_ppdire.predict(Xn)
-            ypredv = np.array(ypredv).reshape(-1).astype('float64')
-            labelvr = label + ' Test'   
-            ax1.scatter(ytruev,ypredv,c=self.colors[5],label=labelvr,
-                        zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
-            pp.xlabel("y-true")
-            pp.ylabel("y-pred")
-           
-        x_abline = np.array(ax1.get_xbound())
-        ax1.add_line(pp.Line2D(x_abline,x_abline,color=self.colors[3]))
-        if len(label)==0:
-            ax1.legend_.remove()
-        else:
-            pp.legend(loc=legend_pos)
-        if len(names)>0:
-            if not(onlyval):
-                for i in range(0,len(names)-1):
-                    ax1.annotate(names[i], (ytruec[i],ypredc[i]))
-        if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
-                ax1.annotate(namesv[i], (ytruev[i],ypredv[i]))
-        if len(title)>0:
-            pp.title(title)
-        pp.show()
-        
-    def plot_projections(self,Xn=[],label=[],components = [0,1],names=[],namesv=[],title=[],legend_pos='lower right',onlyval=False):
-        
-        """
-        plot_projections will plot the score space  
-        Optional inputs: 
-            Xn: array (new_cases,variables) of predictors 
-            If supplied, ppdire projections for new cases will be 
-                made from Xn through res_ppdire.transform()
-            label: string: name of variable to be plotted. Will show in legend.
-            names: list or tuple of strings, casenames from training set
-            namesv: list or tuple of strings, casenames from test set
-            title: String containing plot title
-            legend_pos: string containing legend position
-            onlyval: boolean: only plot validation cases
-        """
-        
-        if len(label)==0:
-            label = 'none'
-        fig = pp.figure()
-        fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
-        ax1 = fig.add_subplot(111)
-        if (not(onlyval)):
-            Tc = np.array(self.res_ppdire.x_scores_)
-            labelcr = label + ' Training'
-            ax1.scatter(Tc[:,components[0]], Tc[:,components[1]], c=self.colors[2], label=labelcr, 
-                    zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
-        else:
-            if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
-        if not(len(Xn)==0):
-            Tv = np.array(self.res_ppdire.transform(Xn))
-            labelvr = label + ' Test'  
-            ax1.scatter(Tv[:,components[0]], Tv[:,components[1]],c=self.colors[5],label=labelvr,
-                        zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
-        if len(label)==0:
-            ax1.legend_.remove()
-        else:
-            pp.legend(loc=legend_pos)
-        if len(names)>0:
-            if not(onlyval):
-                for i in range(0,len(names)-1):
-                    ax1.annotate(names[i], (Tc[i,components[0]], Tc[i,components[1]]))
-        if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
-                ax1.annotate(namesv[i], (Tv[i,components[0]], Tv[i,components[1]]))
-        if len(title)>0:
-            pp.title(title)
-        pp.show()
-        
-        
-        
-
+# -*- coding: utf-8 -*-
+"""
+Created on Sat Apr 11 17:25:42 2020
+
+@author: Emmanuel Jordy Menvouta & Sven Serneels
+"""
+
+from __future__ import absolute_import, division, print_function
+from __future__ import unicode_literals
+
+
+
+from ..ppdire.ppdire import ppdire
+from ..utils.utils import MyException
+import matplotlib.pyplot as pp 
+import numpy as np
+
+
+class ppdire_plot(ppdire):
+    
+    def __init__(self,res_ppdire,colors,markers=['o','d','v'],*args):
+        """
+        Initialize with 
+        res_ppdire, a ppdire class object
+        
+        Only mandatory input is colors, a list of colors for 
+            [0] borders of pane 
+            [1] plot background
+            [2] marker fill
+            [3] diagonal line 
+            [4] marker contour, if different from fill
+            [5] marker color for new cases, if applicable
+               
+        """
+        if not(isinstance(res_ppdire,ppdire)):
+            raise(MyException("Object supplied to ppdireplot needs to be a ppdire object"))
+        self.res_ppdire = res_ppdire
+        self.colors = colors
+        self.markers = markers
+        
+    def plot_yyp(self,ytruev=[],Xn=[],label=[],names=[],namesv=[],title=[],legend_pos='lower right',onlyval=False):
+        """
+        plot_yyp will plot y vs y predicted for ppdire M opbjects
+        Optional inputs: 
+            ytruev: array (new_cases,) of predictands
+            Xn: array (new_cases,variables) of predictors 
+            If these arguments are supplied, ppdire predictions for ytrue will be 
+                made from Xn through res_ppdire.predict()
+            label: string: name of variable to be plotted. Will show in legend.
+            names: list or tuple of strings, casenames from training set
+            namesv: list or tuple of strings, casenames from test set
+            title: String containing plot title
+            legend_pos: string containing legend position
+            onlyval: boolean: only plot validation cases
+        """
+        
+        if len(label)==0:
+            label = 'none'
+        fig = pp.figure()
+        fig.set_facecolor(self.colors[0])
+        pp.rcParams['axes.facecolor'] = self.colors[1]
+        ax1 = fig.add_subplot(111)
+        if (not(onlyval)):
+            ytruec = self.res_ppdire.y0
+            if len(ytruec.shape) >1:
+                ytruec = np.array(ytruec).reshape(-1).astype('float64')
+            ypredc = np.array(self.res_ppdire.fitted_).T.reshape(-1)
+            labelcr = label + ' Training'
+            ax1.scatter(ytruec, ypredc, c=self.colors[2], label=labelcr,
+                    zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
+            pp.xlabel("y-true")
+            pp.ylabel("y-pred")
+            
+        else:
+            if (len(Xn)==0):
+                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+        if not(len(Xn)==0):
+            if len(ytruev.shape) >1:
+                ytruev = np.array(ytruev).reshape(-1).astype('float64')
+            ypredv = self.res_ppdire.predict(Xn)
+            ypredv = np.array(ypredv).reshape(-1).astype('float64')
+            labelvr = label + ' Test'   
+            ax1.scatter(ytruev,ypredv,c=self.colors[5],label=labelvr,
+                        zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
+            pp.xlabel("y-true")
+            pp.ylabel("y-pred")
+           
+        x_abline = np.array(ax1.get_xbound())
+        ax1.add_line(pp.Line2D(x_abline,x_abline,color=self.colors[3]))
+        if len(label)==0:
+            ax1.legend_.remove()
+        else:
+            pp.legend(loc=legend_pos)
+        if len(names)>0:
+            if not(onlyval):
+                for i in range(0,len(names)):
+                    ax1.annotate(names[i], (ytruec[i],ypredc[i]))
+        if len(namesv)>0:
+            for i in range(0,len(namesv)):
+                ax1.annotate(namesv[i], (ytruev[i],ypredv[i]))
+        if len(title)>0:
+            pp.title(title)
+        pp.show()
+        
+    def plot_projections(self,Xn=[],label=[],components = [0,1],names=[],namesv=[],title=[],legend_pos='lower right',onlyval=False):
+        
+        """
+        plot_projections will plot the score space  
+        Optional inputs: 
+            Xn: array (new_cases,variables) of predictors 
+            If supplied, ppdire projections for new cases will be 
+                made from Xn through res_ppdire.transform()
+            label: string: name of variable to be plotted. Will show in legend.
+            names: list or tuple of strings, casenames from training set
+            namesv: list or tuple of strings, casenames from test set
+            title: String containing plot title
+            legend_pos: string containing legend position
+            onlyval: boolean: only plot validation cases
+        """
+        
+        if len(label)==0:
+            label = 'none'
+        fig = pp.figure()
+        fig.set_facecolor(self.colors[0])
+        pp.rcParams['axes.facecolor'] = self.colors[1]
+        ax1 = fig.add_subplot(111)
+        if (not(onlyval)):
+            Tc = np.array(self.res_ppdire.x_scores_)
+            labelcr = label + ' Training'
+            ax1.scatter(Tc[:,components[0]], Tc[:,components[1]], c=self.colors[2], label=labelcr, 
+                    zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
+        else:
+            if (len(Xn)==0):
+                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+        if not(len(Xn)==0):
+            Tv = np.array(self.res_ppdire.transform(Xn))
+            labelvr = label + ' Test'  
+            ax1.scatter(Tv[:,components[0]], Tv[:,components[1]],c=self.colors[5],label=labelvr,
+                        zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
+        if len(label)==0:
+            ax1.legend_.remove()
+        else:
+            pp.legend(loc=legend_pos)
+        if len(names)>0:
+            if not(onlyval):
+                for i in range(0,len(names)):
+                    ax1.annotate(names[i], (Tc[i,components[0]], Tc[i,components[1]]))
+        if len(namesv)>0:
+            for i in range(0,len(namesv)):
+                ax1.annotate(namesv[i], (Tv[i,components[0]], Tv[i,components[1]]))
+        if len(title)>0:
+            pp.title(title)
+        pp.show()
+        
+        
+        
+
diff --git a/src/direpack/plot/sprm_plot.py b/src/direpack/plot/sprm_plot.py
index 948ebdc..99c5ade 100644
--- a/src/direpack/plot/sprm_plot.py
+++ b/src/direpack/plot/sprm_plot.py
@@ -137,10 +137,10 @@ class sprm_plot(sprm):
             pp.legend(loc=legend_pos)
         if len(names)>0:
             if not(onlyval):
-                for i in range(0,len(names)-1):
+                for i in range(0,len(names)):
                     ax1.annotate(names[i], (ytruec[i],ypredc[i]))
         if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
+            for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (ytruev[i],ypredv[i]))
         if len(title)>0:
             pp.title(title)
@@ -256,10 +256,10 @@ class sprm_plot(sprm):
             pp.legend(loc=legend_pos)
         if len(names)>0:
             if not(onlyval):
-                for i in range(0,len(names)-1):
+                for i in range(0,len(names)):
                     ax1.annotate(names[i], (Tc[i,components[0]], Tc[i,components[1]]))
         if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
+            for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (Tv[i,components[0]], Tv[i,components[1]]))
         if len(title)>0:
             pp.title(title)
@@ -325,10 +325,10 @@ class sprm_plot(sprm):
             pp.legend(loc=legend_pos)
         if len(names)>0:
             if not(onlyval):
-                for i in range(0,len(names)-1):
-                    ax1.annotate(names[i], (name_indices[i+1],wc[i]))
+                for i in range(0,len(names)):
+                    ax1.annotate(names[i], (name_indices[i],wc[i]))
         if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
+            for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (name_indices[len(wc)+i],wv[i]))
         if len(title)>0:
             pp.title(title)
diff --git a/src/direpack/plot/sudire_plot.py b/src/direpack/plot/sudire_plot.py
index d4024c3..3d9f843 100644
--- a/src/direpack/plot/sudire_plot.py
+++ b/src/direpack/plot/sudire_plot.py
@@ -1,155 +1,155 @@
-# -*- coding: utf-8 -*-
-"""
-Created on Sat Apr 11 17:25:42 2020
-
-@author: Emmanuel Jordy Menvouta
-"""
-
-from __future__ import absolute_import, division, print_function
-from __future__ import unicode_literals
-
-
-
-from ..sudire.sudire import sudire
-from ..utils.utils import MyException
-import matplotlib.pyplot as pp 
-import numpy as np
-
-
-class sudire_plot(sudire):
-    
-    def __init__(self,res_sudire,colors,markers=['o','d','v'],*args):
-        """
-        Initialize with 
-        res_sudire, a sudire class object
-        
-        Only mandatory input is colors, a list of colors for 
-            [0] borders of pane 
-            [1] plot background
-            [2] marker fill
-            [3] diagonal line 
-            [4] marker contour, if different from fill
-            [5] marker color for new cases, if applicable
-               
-        """
-        if not(isinstance(res_sudire,sudire)):
-            raise(MyException("Object supplied to sudireplot needs to be a sudire object"))
-        self.res_sudire = res_sudire
-        self.colors = colors
-        self.markers = markers
-        
-    def plot_yyp(self,ytruev=[],Xn=[],label=[],names=[],namesv=[],title=[],legend_pos='lower right',onlyval=False):
-        """
-        plot_yyp will plot y vs y predicted for sudire M opbjects
-        Optional inputs: 
-            ytruev: array (new_cases,) of predictands
-            Xn: array (new_cases,variables) of predictors 
-            If these arguments are supplied, sudire predictions for ytrue will be 
-                made from Xn through res_sudire.predict()
-            label: string: name of variable to be plotted. Will show in legend.
-            names: list or tuple of strings, casenames from training set
-            namesv: list or tuple of strings, casenames from test set
-            title: String containing plot title
-            legend_pos: string containing legend position
-            onlyval: boolean: only plot validation cases
-        """
-        
-        if len(label)==0:
-            label = 'none'
-        fig = pp.figure()
-        fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
-        ax1 = fig.add_subplot(111)
-        if (not(onlyval)):
-            ytruec = self.res_sudire.y0
-            if len(ytruec.shape) >1:
-                ytruec = np.array(ytruec).reshape(-1).astype('float64')
-            ypredc = np.array(self.res_sudire.ols_obj_.fittedvalues).T.reshape(-1)
-            
-            ax1.scatter(ytruec, ypredc, c=self.colors[2], label=label,
-                    zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
-            pp.xlabel("y-true")
-            pp.ylabel("y-pred")
-            
-        else:
-            if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
-        if not(len(Xn)==0):
-            if len(ytruev.shape) >1:
-                ytruev = np.array(ytruev).reshape(-1).astype('float64')
-            ypredv = self.res_sudire.predict(Xn)
-            ypredv = np.array(ypredv).reshape(-1).astype('float64')
-                
-            ax1.scatter(ytruev,ypredv,c=self.colors[5],label=label,
-                        zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
-            pp.xlabel("y-true")
-            pp.ylabel("y-pred")
-           
-        x_abline = np.array(ax1.get_xbound())
-        ax1.add_line(pp.Line2D(x_abline,x_abline,color=self.colors[3]))
-        if len(label)==0:
-            ax1.legend_.remove()
-        else:
-            pp.legend(loc=legend_pos)
-        if len(names)>0:
-            if not(onlyval):
-                for i in range(0,len(names)-1):
-                    ax1.annotate(names[i], (ytruec[i],ypredc[i]))
-        if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
-                ax1.annotate(namesv[i], (ytruev[i],ypredv[i]))
-        if len(title)>0:
-            pp.title(title)
-        pp.show()
-        
-    def plot_projections(self,Xn=[],label=[],components = [0,1],names=[],namesv=[],title=[],legend_pos='lower right',onlyval=False):
-        
-        """
-        plot_projections will plot the score space  
-        Optional inputs: 
-            Xn: array (new_cases,variables) of predictors 
-            If supplied, sudire projections for new cases will be 
-                made from Xn through res_sudire.transform()
-            label: string: name of variable to be plotted. Will show in legend.
-            names: list or tuple of strings, casenames from training set
-            namesv: list or tuple of strings, casenames from test set
-            title: String containing plot title
-            legend_pos: string containing legend position
-            onlyval: boolean: only plot validation cases
-        """
-        
-        if len(label)==0:
-            label = 'none'
-        fig = pp.figure()
-        fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
-        ax1 = fig.add_subplot(111)
-        if (not(onlyval)):
-            Tc = np.array(self.res_sudire.x_scores_)
-            ax1.scatter(Tc[:,components[0]], Tc[:,components[1]], c=self.colors[2], label=label, 
-                    zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
-        else:
-            if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
-        if not(len(Xn)==0):
-            Tv = np.array(self.res_sudire.transform(Xn))
-            ax1.scatter(Tv[:,components[0]], Tv[:,components[1]],c=self.colors[5],label=label,
-                        zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
-        if len(label)==0:
-            ax1.legend_.remove()
-        else:
-            pp.legend(loc=legend_pos)
-        if len(names)>0:
-            if not(onlyval):
-                for i in range(0,len(names)-1):
-                    ax1.annotate(names[i], (Tc[i,components[0]], Tc[i,components[1]]))
-        if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
-                ax1.annotate(namesv[i], (Tv[i,components[0]], Tv[i,components[1]]))
-        if len(title)>0:
-            pp.title(title)
-        pp.show()
-        
-        
-        
-
+# -*- coding: utf-8 -*-
+"""
+Created on Sat Apr 11 17:25:42 2020
+
+@author: Emmanuel Jordy Menvouta
+"""
+
+from __future__ import absolute_import, division, print_function
+from __future__ import unicode_literals
+
+
+
+from ..sudire.sudire import sudire
+from ..utils.utils import MyException
+import matplotlib.pyplot as pp 
+import numpy as np
+
+
+class sudire_plot(sudire):
+    
+    def __init__(self,res_sudire,colors,markers=['o','d','v'],*args):
+        """
+        Initialize with 
+        res_sudire, a sudire class object
+        
+        Only mandatory input is colors, a list of colors for 
+            [0] borders of pane 
+            [1] plot background
+            [2] marker fill
+            [3] diagonal line 
+            [4] marker contour, if different from fill
+            [5] marker color for new cases, if applicable
+               
+        """
+        if not(isinstance(res_sudire,sudire)):
+            raise(MyException("Object supplied to sudireplot needs to be a sudire object"))
+        self.res_sudire = res_sudire
+        self.colors = colors
+        self.markers = markers
+        
+    def plot_yyp(self,ytruev=[],Xn=[],label=[],names=[],namesv=[],title=[],legend_pos='lower right',onlyval=False):
+        """
+        plot_yyp will plot y vs y predicted for sudire M opbjects
+        Optional inputs: 
+            ytruev: array (new_cases,) of predictands
+            Xn: array (new_cases,variables) of predictors 
+            If these arguments are supplied, sudire predictions for ytrue will be 
+                made from Xn through res_sudire.predict()
+            label: string: name of variable to be plotted. Will show in legend.
+            names: list or tuple of strings, casenames from training set
+            namesv: list or tuple of strings, casenames from test set
+            title: String containing plot title
+            legend_pos: string containing legend position
+            onlyval: boolean: only plot validation cases
+        """
+        
+        if len(label)==0:
+            label = 'none'
+        fig = pp.figure()
+        fig.set_facecolor(self.colors[0])
+        pp.rcParams['axes.facecolor'] = self.colors[1]
+        ax1 = fig.add_subplot(111)
+        if (not(onlyval)):
+            ytruec = self.res_sudire.y0
+            if len(ytruec.shape) >1:
+                ytruec = np.array(ytruec).reshape(-1).astype('float64')
+            ypredc = np.array(self.res_sudire.ols_obj_.fittedvalues).T.reshape(-1)
+            
+            ax1.scatter(ytruec, ypredc, c=self.colors[2], label=label,
+                    zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
+            pp.xlabel("y-true")
+            pp.ylabel("y-pred")
+            
+        else:
+            if (len(Xn)==0):
+                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+        if not(len(Xn)==0):
+            if len(ytruev.shape) >1:
+                ytruev = np.array(ytruev).reshape(-1).astype('float64')
+            ypredv = self.res_sudire.predict(Xn)
+            ypredv = np.array(ypredv).reshape(-1).astype('float64')
+                
+            ax1.scatter(ytruev,ypredv,c=self.colors[5],label=label,
+                        zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
+            pp.xlabel("y-true")
+            pp.ylabel("y-pred")
+           
+        x_abline = np.array(ax1.get_xbound())
+        ax1.add_line(pp.Line2D(x_abline,x_abline,color=self.colors[3]))
+        if len(label)==0:
+            ax1.legend_.remove()
+        else:
+            pp.legend(loc=legend_pos)
+        if len(names)>0:
+            if not(onlyval):
+                for i in range(0,len(names)):
+                    ax1.annotate(names[i], (ytruec[i],ypredc[i]))
+        if len(namesv)>0:
+            for i in range(0,len(namesv)):
+                ax1.annotate(namesv[i], (ytruev[i],ypredv[i]))
+        if len(title)>0:
+            pp.title(title)
+        pp.show()
+        
+    def plot_projections(self,Xn=[],label=[],components = [0,1],names=[],namesv=[],title=[],legend_pos='lower right',onlyval=False):
+        
+        """
+        plot_projections will plot the score space  
+        Optional inputs: 
+            Xn: array (new_cases,variables) of predictors 
+            If supplied, sudire projections for new cases will be 
+                made from Xn through res_sudire.transform()
+            label: string: name of variable to be plotted. Will show in legend.
+            names: list or tuple of strings, casenames from training set
+            namesv: list or tuple of strings, casenames from test set
+            title: String containing plot title
+            legend_pos: string containing legend position
+            onlyval: boolean: only plot validation cases
+        """
+        
+        if len(label)==0:
+            label = 'none'
+        fig = pp.figure()
+        fig.set_facecolor(self.colors[0])
+        pp.rcParams['axes.facecolor'] = self.colors[1]
+        ax1 = fig.add_subplot(111)
+        if (not(onlyval)):
+            Tc = np.array(self.res_sudire.x_scores_)
+            ax1.scatter(Tc[:,components[0]], Tc[:,components[1]], c=self.colors[2], label=label, 
+                    zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
+        else:
+            if (len(Xn)==0):
+                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+        if not(len(Xn)==0):
+            Tv = np.array(self.res_sudire.transform(Xn))
+            ax1.scatter(Tv[:,components[0]], Tv[:,components[1]],c=self.colors[5],label=label,
+                        zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
+        if len(label)==0:
+            ax1.legend_.remove()
+        else:
+            pp.legend(loc=legend_pos)
+        if len(names)>0:
+            if not(onlyval):
+                for i in range(0,len(names)):
+                    ax1.annotate(names[i], (Tc[i,components[0]], Tc[i,components[1]]))
+        if len(namesv)>0:
+            for i in range(0,len(namesv)):
+                ax1.annotate(namesv[i], (Tv[i,components[0]], Tv[i,components[1]]))
+        if len(title)>0:
+            pp.title(title)
+        pp.show()
+        
+        
+        
+
-- 
2.43.0


From 7ffb4fb3fc77d3f91355804cf2f83935d4f38ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:34 +0000
Subject: [PATCH 54/72] fix: truncated coefficient plot labels bars with their
 variables

---
 src/direpack/plot/sprm_plot.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/direpack/plot/sprm_plot.py b/src/direpack/plot/sprm_plot.py
index 99c5ade..d7b92cf 100644
--- a/src/direpack/plot/sprm_plot.py
+++ b/src/direpack/plot/sprm_plot.py
@@ -163,6 +163,7 @@ class sprm_plot(sprm):
         ax1 = fig.add_subplot(111)
         p = len(self.res_sprm.non_zero_scale_vars_)
         if len(columns) > 0:
+            columns = np.array(columns)
             x_plot = columns[self.res_sprm.non_zero_scale_vars_]
             x_labels = columns[self.res_sprm.non_zero_scale_vars_]
         else:
@@ -170,14 +171,14 @@ class sprm_plot(sprm):
        
         b_orig = np.array(getattr(self.res_sprm,entity)).reshape(-1)
         if truncation > 0:
-            ind_sort = np.argsort(np.argsort(b_orig))
+            ind_sort = np.argsort(b_orig)
             b_sort = np.sort(b_orig)
             left = np.ceil(p*(truncation/2)).astype(int)
             right = (p-np.ceil(p*(truncation/2)).astype(int))
-            b_plot = b_sort[np.union1d(np.arange(0,left),
-                                       np.arange(right,p))]
-            x_labels = np.union1d(x_plot[ind_sort[0:left]],
-                                x_plot[ind_sort[right:p]])
+            extremes = np.union1d(np.arange(0,left),
+                                  np.arange(right,p))
+            b_plot = b_sort[extremes]
+            x_labels = x_plot[ind_sort[extremes]]
             x_plot = np.arange(0,len(x_labels))
             ax1.bar(x_plot,b_plot,color=self.colors[2],edgecolor=self.colors[4],tick_label=x_labels)
         else:
-- 
2.43.0


From 9c85da371bb413bcb28f6f2e5d3b06faab19ef2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:06 +0000
Subject: [PATCH 55/72] fix: sudire accepts data frames without centring

---
 src/direpack/sudire/sudire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 3f142b1..424fe11 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -312,7 +312,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 mX = trim_mean(X, self.trimming, axis=0)
                 sX = np.sqrt(np.diag(varmatx))
         else:
-            Xs = X0
+            Xs = X
             mX = np.zeros((1, p))
             sX = np.ones((1, p))
         if scale_data:
-- 
2.43.0


From 005196313edd4134a16b412d459d3410eb668127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:11 +0000
Subject: [PATCH 56/72] fix: ppdire accepts integer data without centring

---
 src/direpack/ppdire/ppdire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 3af9947..56b565c 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -356,7 +356,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             mX = centring.col_loc_
             sX = centring.col_sca_
         else:
-            Xs = X
+            Xs = X.astype('float64')
             mX = np.zeros(p)
             sX = np.ones(p)
 
-- 
2.43.0


From 0537caeb131783a8674e1f35596601f2c71cf5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:41 +0000
Subject: [PATCH 57/72] fix: scalers refuse new data with another number of
 columns

---
 src/direpack/utils/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/direpack/utils/utils.py b/src/direpack/utils/utils.py
index f6b089e..c4660c4 100644
--- a/src/direpack/utils/utils.py
+++ b/src/direpack/utils/utils.py
@@ -78,6 +78,8 @@ def _check_input(X, n_cols=None):
         # a single new case for a model with p columns is a row already
         if p >= 2 and p != n_cols:
             X = X.reshape((-1, 1))
+    if n_cols is not None and X.shape[1] != n_cols:
+        raise(ValueError('New data must have same number of columns as the ones the model has been trained with'))
     return(X)
 
 
-- 
2.43.0


From 99b817af64a92b188a41f3c18182cabd55397b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:41 +0000
Subject: [PATCH 58/72] fix: sudire refuses a number of components below one

---
 src/direpack/sudire/sudire.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 424fe11..6f04908 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -256,6 +256,8 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         trimming = self.trimming
 
         # Check dimensions
+        if self.n_components < 1:
+            raise (MyException("number of components has to be positive"))
         if self.n_components > min(n, p):
             raise (
                 MyException(
-- 
2.43.0


From 086e0aff7606909241378b9d83e0a08acbc3fa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:41 +0000
Subject: [PATCH 59/72] fix: sparse NIPALS refuses more components than
 variables or cases

---
 src/direpack/sprm/snipls.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/direpack/sprm/snipls.py b/src/direpack/sprm/snipls.py
index 5bf9ee3..540ba78 100644
--- a/src/direpack/sprm/snipls.py
+++ b/src/direpack/sprm/snipls.py
@@ -127,6 +127,8 @@ class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 columns = X.columns
             X = X.to_numpy()
         (n, p) = X.shape
+        if self.n_components > min(n, p):
+            raise (MyException("The number of components is too large."))
         if type(y) in [ps.core.frame.DataFrame, ps.core.series.Series]:
             y = y.to_numpy()
         X = _check_input(X)
-- 
2.43.0


From ce8680bd547d1bc850c9d8e51fa35cef0fcfea74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:41 +0000
Subject: [PATCH 60/72] fix: plots raise the errors they announce

---
 src/direpack/plot/ppdire_plot.py | 4 ++--
 src/direpack/plot/sprm_plot.py   | 8 ++++----
 src/direpack/plot/sudire_plot.py | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/direpack/plot/ppdire_plot.py b/src/direpack/plot/ppdire_plot.py
index 65875c2..7c172cb 100644
--- a/src/direpack/plot/ppdire_plot.py
+++ b/src/direpack/plot/ppdire_plot.py
@@ -73,7 +73,7 @@ class ppdire_plot(ppdire):
             
         else:
             if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+                raise ValueError('In onlyval=True mode, new cases Xn need to be provided')
         if not(len(Xn)==0):
             if len(ytruev.shape) >1:
                 ytruev = np.array(ytruev).reshape(-1).astype('float64')
@@ -131,7 +131,7 @@ class ppdire_plot(ppdire):
                     zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
         else:
             if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+                raise ValueError('In onlyval=True mode, new cases Xn need to be provided')
         if not(len(Xn)==0):
             Tv = np.array(self.res_ppdire.transform(Xn))
             labelvr = label + ' Test'  
diff --git a/src/direpack/plot/sprm_plot.py b/src/direpack/plot/sprm_plot.py
index d7b92cf..1cc3911 100644
--- a/src/direpack/plot/sprm_plot.py
+++ b/src/direpack/plot/sprm_plot.py
@@ -107,7 +107,7 @@ class sprm_plot(sprm):
                     zorder=1,edgecolors=self.colors[4],marker=self.markers[2])
         else:
             if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+                raise ValueError('In onlyval=True mode, new cases Xn need to be provided')
         if not(len(Xn)==0):
             if len(ytruev.shape) >1:
                 ytruev = np.array(ytruev).reshape(-1).astype('float64')
@@ -232,7 +232,7 @@ class sprm_plot(sprm):
                     zorder=1,edgecolors=self.colors[4],marker=self.markers[2])
         else:
             if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+                raise ValueError('In onlyval=True mode, new cases Xn need to be provided')
         if not(len(Xn)==0):
             Tv = np.array(self.res_sprm.transform(Xn))
             labelvr = label[0] + ' Test' + ' Regular'
@@ -302,13 +302,13 @@ class sprm_plot(sprm):
             elif mode == 'y':
                 wc = self.res_sprm.y_caseweights_
             else:
-                ValueError('Options for mode are overall, x or y')
+                raise ValueError('Options for mode are overall, x or y')
             labelc = label[0] + ' Training' 
         else:
             wc = []
             labelc=[]
             if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+                raise ValueError('In onlyval=True mode, new cases Xn need to be provided')
         if not(len(Xn)==0):
             wv = self.res_sprm.weightnewx(Xn)
             labelv = label[0] + ' Test'
diff --git a/src/direpack/plot/sudire_plot.py b/src/direpack/plot/sudire_plot.py
index 3d9f843..1815b73 100644
--- a/src/direpack/plot/sudire_plot.py
+++ b/src/direpack/plot/sudire_plot.py
@@ -73,7 +73,7 @@ class sudire_plot(sudire):
             
         else:
             if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+                raise ValueError('In onlyval=True mode, new cases Xn need to be provided')
         if not(len(Xn)==0):
             if len(ytruev.shape) >1:
                 ytruev = np.array(ytruev).reshape(-1).astype('float64')
@@ -130,7 +130,7 @@ class sudire_plot(sudire):
                     zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
         else:
             if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+                raise ValueError('In onlyval=True mode, new cases Xn need to be provided')
         if not(len(Xn)==0):
             Tv = np.array(self.res_sudire.transform(Xn))
             ax1.scatter(Tv[:,components[0]], Tv[:,components[1]],c=self.colors[5],label=label,
-- 
2.43.0


From 7c42d80aa97a0df07318ad8644aaef1588dbfaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:04 +0000
Subject: [PATCH 61/72] fix: sprm removes variables of zero scale, not
 variables in small units

---
 src/direpack/sprm/sprm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 176e9a5..b2eda5c 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -231,7 +231,8 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         setattr(self, "y_sca_", sy)
         ys = np.array(ys).reshape(-1)
 
-        zero_scale = np.where(sX < 1e-5)[0]
+        # zero relative to the size of the column, whatever its units
+        zero_scale = np.where(sX <= 1e-10 * np.max(np.abs(X), axis=0))[0]
         vars_to_keep = np.arange(0, p)
         if len(zero_scale) > 0:
             if type(columns) != bool:
-- 
2.43.0


From 44322b8405a22b2e6844ad09a0e4e39c09226259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:09 +0000
Subject: [PATCH 62/72] fix: spatial median does not depend on the units of the
 data

---
 src/direpack/preprocessing/_preproc_utilities.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/direpack/preprocessing/_preproc_utilities.py b/src/direpack/preprocessing/_preproc_utilities.py
index 39dd41d..303e8b8 100644
--- a/src/direpack/preprocessing/_preproc_utilities.py
+++ b/src/direpack/preprocessing/_preproc_utilities.py
@@ -196,7 +196,15 @@ def l1median(X, **kwargs):
     if p < 2:
         return median(X)
     else:
-        return _l1median(X, x0, **kwargs).x
+        # the optimizer's tolerance is absolute: solve in units of the data
+        x0 = np.asarray(x0, dtype=float).reshape(-1)
+        dists = np.sqrt(np.nansum(np.square(X - x0), axis=1))
+        unit = np.median(dists)
+        if not unit > 0:
+            unit = np.max(dists)
+        if not unit > 0:
+            return x0
+        return x0 + unit * _l1median((X - x0) / unit, np.zeros(p), **kwargs).x
 
 
 def kstepLTS(X, maxit=5, tol=1e-10, **kwargs):
-- 
2.43.0


From 1a3e21355880a5c3d6ce0080bcaafd77dbc7e1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:55 +0000
Subject: [PATCH 63/72] fix: distance statistics honour dmetric, and a vector
 y, on every calculation path

---
 src/direpack/dicomo/dicomo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index d551c73..a77e3cc 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -347,7 +347,7 @@ class dicomo(_BaseComposition,BaseEstimator):
                 
                 
             
-            elif (calcmode=='fast' and center =='mean' and trimming == 0 and order==2):
+            elif (calcmode=='fast' and dmetric == 'euclidean' and center =='mean' and trimming == 0 and order==2):
                 if mode != 'com':
                     if biascorr:
                         xmom = np.sqrt(dc.u_distance_covariance_sqr(x,x))
@@ -408,6 +408,8 @@ class dicomo(_BaseComposition,BaseEstimator):
                         raise(MyException('Please feed data with length > 0'))
                     if n1!=n:
                         raise(MyException('Please feed x and y data of equal length'))
+                    if len(y.shape)==1:
+                        y = np.array(y).reshape((n,1))
                     
                     dmy, n2 = distance_matrix_centered(y,biascorr=biascorr,
                                                    trimming=trimming,
-- 
2.43.0


From db976183617ea2f41f745fc25072780a2948aff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:55 +0000
Subject: [PATCH 64/72] fix: the fast distance standard deviation is the root
 of the distance variance

---
 src/direpack/dicomo/dicomo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index a77e3cc..d2a3c14 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -353,6 +353,8 @@ class dicomo(_BaseComposition,BaseEstimator):
                         xmom = np.sqrt(dc.u_distance_covariance_sqr(x,x))
                     else:
                         xmom = np.sqrt(dc.distance_covariance_sqr(x,x))
+                    if self.mode == 'std':
+                        xmom = np.sqrt(xmom)
                     self.moment_ = xmom
                 if mode !='mom':
                     if 'y' not in kwargs:
-- 
2.43.0


From 44f9b3b57e5da0ae749ecda88ad61a11fe946d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:20 +0000
Subject: [PATCH 65/72] fix: martingale difference divergence honours dmetric

---
 src/direpack/dicomo/_dicomo_utils.py | 2 +-
 src/direpack/dicomo/dicomo.py        | 2 +-
 src/direpack/sudire/_sudire_utils.py | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/direpack/dicomo/_dicomo_utils.py b/src/direpack/dicomo/_dicomo_utils.py
index 4c3a274..3166604 100644
--- a/src/direpack/dicomo/_dicomo_utils.py
+++ b/src/direpack/dicomo/_dicomo_utils.py
@@ -359,7 +359,7 @@ def difference_divergence(X,Y,**kwargs):
     
     
     
-    A, Adim = distance_matrix_centered(X,biascorr=biascorr,trimming=trimming,center=center)  
+    A, Adim = distance_matrix_centered(X,biascorr=biascorr,trimming=trimming,center=center,dmetric=dmetric)  
     dy=  spp.distance.squareform(spp.distance.pdist(Y.reshape(-1, 1),metric=dmetric)**2)
     B,Bdim = double_center_flex(0.5*dy,biascorr=biascorr,trimming=trimming,center=center)
     if biascorr:
diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index d2a3c14..206ec16 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -325,7 +325,7 @@ class dicomo(_BaseComposition,BaseEstimator):
                     if n1!=n:
                         raise(MyException('Please feed x and y data of equal length')) 
                     if (mode in ['mdd','mdc']):
-                        como=np.sqrt(difference_divergence(x,y,center=center,trimming=trimming,biascorr=biascorr))
+                        como=np.sqrt(difference_divergence(x,y,center=center,trimming=trimming,biascorr=biascorr,dmetric=dmetric))
                         self.co_moment_ = como
                         if mode=='mdd':
                             self.moment_ = como 
diff --git a/src/direpack/sudire/_sudire_utils.py b/src/direpack/sudire/_sudire_utils.py
index 16a9eca..b4cc82e 100644
--- a/src/direpack/sudire/_sudire_utils.py
+++ b/src/direpack/sudire/_sudire_utils.py
@@ -48,7 +48,7 @@ def mdd_trim(beta, *args):
         X_dat = np.matmul(X_coord, beta)
         res = np.sqrt(
             difference_divergence(
-                X_dat, Y, center=center, trimming=trimming, biascorr=biascorr
+                X_dat, Y, center=center, trimming=trimming, biascorr=biascorr, dmetric=dmetric
             )
         )
         return -10 * res
@@ -56,7 +56,7 @@ def mdd_trim(beta, *args):
         X_dat = np.matmul(X, beta)
         res = np.sqrt(
             difference_divergence(
-                X_dat, Y, center=center, trimming=trimming, biascorr=biascorr
+                X_dat, Y, center=center, trimming=trimming, biascorr=biascorr, dmetric=dmetric
             )
         )
         return -10 * res
-- 
2.43.0


From d9e16fae1f24e7cadc23917b97764a627755f58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:59 +0000
Subject: [PATCH 66/72] fix: ppdire passes its dmetric fit argument on to the
 projection index

---
 src/direpack/ppdire/ppdire.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 56b565c..e223dd3 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -421,7 +421,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                     'alpha': self.alpha,
                     'trimming': self.trimming,
                     'biascorr': biascorr, 
-                    'dmetric' : 'euclidean',
+                    'dmetric' : dmetric,
                     }
         
         if self.optimizer=='grid':
@@ -469,7 +469,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                      'ndir': ndir,
                      'trimming': self.trimming,
                      'biascorr': biascorr, 
-                     'dmetric' : 'euclidean',
+                     'dmetric' : dmetric,
                      '_stop0c' : stop0c,
                      '_stop0s' : stop0s,
                      '_stop1c' : stop1c,
-- 
2.43.0


From 6cccf11632941b6b7c842dd6e0d88323ae7ac4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:59 +0000
Subject: [PATCH 67/72] fix: ppdire passes its option fit argument on to the
 higher order co-moment

---
 src/direpack/ppdire/ppdire.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index e223dd3..d1f110b 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -278,6 +278,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                 probp3 = kwargs.get('probp3')
 
             
+        option = None
         if self.projection_index == dicomo:
             
             if self.pi_arguments['mode'] in ('M3','cos','cok'):
@@ -423,6 +424,8 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                     'biascorr': biascorr, 
                     'dmetric' : dmetric,
                     }
+        if option is not None:
+            opt_args['option'] = option
         
         if self.optimizer=='grid':
             # Define grid optimization ranges
@@ -478,6 +481,8 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                      'optrange' : self.optrange,
                      'square_pi' : self.square_pi
                      }
+            if option is not None:
+                grid_args_2['option'] = option
             if flag=='two-block':
                 grid_args_2['y'] = f
         
-- 
2.43.0


From e86bc594bbc8185c1d3bc76330d6d8eff166019b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:59 +0000
Subject: [PATCH 68/72] fix: ppdire accepts a list of optimizer constraints, as
 documented

---
 src/direpack/ppdire/ppdire.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index d1f110b..3f2ae38 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -36,6 +36,15 @@ from ..ipopt_temp.jacobian import (
     FunctionWithApproxJacobian,
 )
 
+def _constraint_list(constraints):
+    """
+    Further constraints are given as one constraint or as a list of them.
+    """
+    if isinstance(constraints,(list,tuple)):
+        return(list(constraints))
+    return([constraints])
+
+
 class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
     
     """
@@ -597,7 +606,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                               'fun': lambda x: np.linalg.norm(x) -1,
                               }
                 if self.optimizer_constraints is not None: 
-                    constraint = [constraint,self.optimizer_constraints]
+                    constraint = [constraint] + _constraint_list(self.optimizer_constraints)
                 wi = minimize_ipopt(
                     pp_objective,
                     E[0,:].transpose(),
@@ -611,7 +620,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             elif self.optimizer == 'differential_evolution':
                 constraint = NonlinearConstraint(lambda x: np.linalg.norm(x) -1, lb=0, ub=0)
                 if self.optimizer_constraints is not None: 
-                    constraint = [constraint,self.optimizer_constraints]
+                    constraint = [constraint] + _constraint_list(self.optimizer_constraints)
                 wi = differential_evolution(
                     pp_objective,
                     [(-1e8,1e8) for i in range(p)],
@@ -633,7 +642,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                               'fun': lambda x: np.linalg.norm(x) -1,
                               }
                 if self.optimizer_constraints is not None: 
-                    constraint = [constraint,self.optimizer_constraints]
+                    constraint = [constraint] + _constraint_list(self.optimizer_constraints)
                 wi = minimize(pp_objective,
                               E[0,:].transpose(),
                               args=(self.most,E,opt_args,self.square_pi),
-- 
2.43.0


From cf4e096712c01ac93bf12b2411dfc300ba5348c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:59 +0000
Subject: [PATCH 69/72] fix: ppdire proceeds with the full data when
 compression is not possible

---
 src/direpack/ppdire/ppdire.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 3f2ae38..e02559c 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -349,10 +349,8 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                 warnings.warn('Due to low scales in data, compression would induce zero scales.' 
                               + '\n' + 'Proceeding without compression.')
                 dimensions = False
-                if copy:
-                    X = copy.deepcopy(X0)
-                else:
-                    X = X0
+                X = convert_X_input(X0)
+                n,p = X.shape
             else:
                 dimensions = True
         else:
-- 
2.43.0


From af46d32d472abf4bb5455a66b43f037b47fa6f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:15 +0000
Subject: [PATCH 70/72] fix: models fitted with copy=False can be plotted

---
 src/direpack/ppdire/ppdire.py | 4 +++-
 src/direpack/sudire/sudire.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index e02559c..54445bc 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -391,7 +391,9 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                 raise(MyException('X and y number of rows must agree'))
             if self.copy:
                 y0 = copy.deepcopy(y)
-                self.y0 = y0
+            else:
+                y0 = y
+            self.y0 = y0
                 
             if center_data:
                 ys = centring.fit_transform(y)
diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 6f04908..bc1e01d 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -369,7 +369,9 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 raise (MyException("X and y number of rows must agree"))
             if self.copy:
                 y0 = copy.deepcopy(y)
-                self.y0 = y0
+            else:
+                y0 = y
+            self.y0 = y0
             if center_data:
                 ys = y  # dont center y
                 my = np.mean(y, axis=0)
-- 
2.43.0


From c98761caf991982e3739c7e2b8a7de7898028e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:15 +0000
Subject: [PATCH 71/72] fix: restore the line endings of sudire and the plot
 modules

---
 src/direpack/plot/ppdire_plot.py |  314 +++---
 src/direpack/plot/sudire_plot.py |  310 +++---
 src/direpack/sudire/sudire.py    | 1678 +++++++++++++++---------------
 3 files changed, 1151 insertions(+), 1151 deletions(-)

diff --git a/src/direpack/plot/ppdire_plot.py b/src/direpack/plot/ppdire_plot.py
index 7c172cb..3fc277d 100644
--- a/src/direpack/plot/ppdire_plot.py
+++ b/src/direpack/plot/ppdire_plot.py
@@ -1,157 +1,157 @@
-# -*- coding: utf-8 -*-
-"""
-Created on Sat Apr 11 17:25:42 2020
-
-@author: Emmanuel Jordy Menvouta & Sven Serneels
-"""
-
-from __future__ import absolute_import, division, print_function
-from __future__ import unicode_literals
-
-
-
-from ..ppdire.ppdire import ppdire
-from ..utils.utils import MyException
-import matplotlib.pyplot as pp 
-import numpy as np
-
-
-class ppdire_plot(ppdire):
-    
-    def __init__(self,res_ppdire,colors,markers=['o','d','v'],*args):
-        """
-        Initialize with 
-        res_ppdire, a ppdire class object
-        
-        Only mandatory input is colors, a list of colors for 
-            [0] borders of pane 
-            [1] plot background
-            [2] marker fill
-            [3] diagonal line 
-            [4] marker contour, if different from fill
-            [5] marker color for new cases, if applicable
-               
-        """
-        if not(isinstance(res_ppdire,ppdire)):
-            raise(MyException("Object supplied to ppdireplot needs to be a ppdire object"))
-        self.res_ppdire = res_ppdire
-        self.colors = colors
-        self.markers = markers
-        
-    def plot_yyp(self,ytruev=[],Xn=[],label=[],names=[],namesv=[],title=[],legend_pos='lower right',onlyval=False):
-        """
-        plot_yyp will plot y vs y predicted for ppdire M opbjects
-        Optional inputs: 
-            ytruev: array (new_cases,) of predictands
-            Xn: array (new_cases,variables) of predictors 
-            If these arguments are supplied, ppdire predictions for ytrue will be 
-                made from Xn through res_ppdire.predict()
-            label: string: name of variable to be plotted. Will show in legend.
-            names: list or tuple of strings, casenames from training set
-            namesv: list or tuple of strings, casenames from test set
-            title: String containing plot title
-            legend_pos: string containing legend position
-            onlyval: boolean: only plot validation cases
-        """
-        
-        if len(label)==0:
-            label = 'none'
-        fig = pp.figure()
-        fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
-        ax1 = fig.add_subplot(111)
-        if (not(onlyval)):
-            ytruec = self.res_ppdire.y0
-            if len(ytruec.shape) >1:
-                ytruec = np.array(ytruec).reshape(-1).astype('float64')
-            ypredc = np.array(self.res_ppdire.fitted_).T.reshape(-1)
-            labelcr = label + ' Training'
-            ax1.scatter(ytruec, ypredc, c=self.colors[2], label=labelcr,
-                    zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
-            pp.xlabel("y-true")
-            pp.ylabel("y-pred")
-            
-        else:
-            if (len(Xn)==0):
-                raise ValueError('In onlyval=True mode, new cases Xn need to be provided')
-        if not(len(Xn)==0):
-            if len(ytruev.shape) >1:
-                ytruev = np.array(ytruev).reshape(-1).astype('float64')
-            ypredv = self.res_ppdire.predict(Xn)
-            ypredv = np.array(ypredv).reshape(-1).astype('float64')
-            labelvr = label + ' Test'   
-            ax1.scatter(ytruev,ypredv,c=self.colors[5],label=labelvr,
-                        zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
-            pp.xlabel("y-true")
-            pp.ylabel("y-pred")
-           
-        x_abline = np.array(ax1.get_xbound())
-        ax1.add_line(pp.Line2D(x_abline,x_abline,color=self.colors[3]))
-        if len(label)==0:
-            ax1.legend_.remove()
-        else:
-            pp.legend(loc=legend_pos)
-        if len(names)>0:
-            if not(onlyval):
-                for i in range(0,len(names)):
-                    ax1.annotate(names[i], (ytruec[i],ypredc[i]))
-        if len(namesv)>0:
-            for i in range(0,len(namesv)):
-                ax1.annotate(namesv[i], (ytruev[i],ypredv[i]))
-        if len(title)>0:
-            pp.title(title)
-        pp.show()
-        
-    def plot_projections(self,Xn=[],label=[],components = [0,1],names=[],namesv=[],title=[],legend_pos='lower right',onlyval=False):
-        
-        """
-        plot_projections will plot the score space  
-        Optional inputs: 
-            Xn: array (new_cases,variables) of predictors 
-            If supplied, ppdire projections for new cases will be 
-                made from Xn through res_ppdire.transform()
-            label: string: name of variable to be plotted. Will show in legend.
-            names: list or tuple of strings, casenames from training set
-            namesv: list or tuple of strings, casenames from test set
-            title: String containing plot title
-            legend_pos: string containing legend position
-            onlyval: boolean: only plot validation cases
-        """
-        
-        if len(label)==0:
-            label = 'none'
-        fig = pp.figure()
-        fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
-        ax1 = fig.add_subplot(111)
-        if (not(onlyval)):
-            Tc = np.array(self.res_ppdire.x_scores_)
-            labelcr = label + ' Training'
-            ax1.scatter(Tc[:,components[0]], Tc[:,components[1]], c=self.colors[2], label=labelcr, 
-                    zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
-        else:
-            if (len(Xn)==0):
-                raise ValueError('In onlyval=True mode, new cases Xn need to be provided')
-        if not(len(Xn)==0):
-            Tv = np.array(self.res_ppdire.transform(Xn))
-            labelvr = label + ' Test'  
-            ax1.scatter(Tv[:,components[0]], Tv[:,components[1]],c=self.colors[5],label=labelvr,
-                        zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
-        if len(label)==0:
-            ax1.legend_.remove()
-        else:
-            pp.legend(loc=legend_pos)
-        if len(names)>0:
-            if not(onlyval):
-                for i in range(0,len(names)):
-                    ax1.annotate(names[i], (Tc[i,components[0]], Tc[i,components[1]]))
-        if len(namesv)>0:
-            for i in range(0,len(namesv)):
-                ax1.annotate(namesv[i], (Tv[i,components[0]], Tv[i,components[1]]))
-        if len(title)>0:
-            pp.title(title)
-        pp.show()
-        
-        
-        
-
+# -*- coding: utf-8 -*-
+"""
+Created on Sat Apr 11 17:25:42 2020
+
+@author: Emmanuel Jordy Menvouta & Sven Serneels
+"""
+
+from __future__ import absolute_import, division, print_function
+from __future__ import unicode_literals
+
+
+
+from ..ppdire.ppdire import ppdire
+from ..utils.utils import MyException
+import matplotlib.pyplot as pp 
+import numpy as np
+
+
+class ppdire_plot(ppdire):
+    
+    def __init__(self,res_ppdire,colors,markers=['o','d','v'],*args):
+        """
+        Initialize with 
+        res_ppdire, a ppdire class object
+        
+        Only mandatory input is colors, a list of colors for 
+            [0] borders of pane 
+            [1] plot background
+            [2] marker fill
+            [3] diagonal line 
+            [4] marker contour, if different from fill
+            [5] marker color for new cases, if applicable
+               
+        """
+        if not(isinstance(res_ppdire,ppdire)):
+            raise(MyException("Object supplied to ppdireplot needs to be a ppdire object"))
+        self.res_ppdire = res_ppdire
+        self.colors = colors
+        self.markers = markers
+        
+    def plot_yyp(self,ytruev=[],Xn=[],label=[],names=[],namesv=[],title=[],legend_pos='lower right',onlyval=False):
+        """
+        plot_yyp will plot y vs y predicted for ppdire M opbjects
+        Optional inputs: 
+            ytruev: array (new_cases,) of predictands
+            Xn: array (new_cases,variables) of predictors 
+            If these arguments are supplied, ppdire predictions for ytrue will be 
+                made from Xn through res_ppdire.predict()
+            label: string: name of variable to be plotted. Will show in legend.
+            names: list or tuple of strings, casenames from training set
+            namesv: list or tuple of strings, casenames from test set
+            title: String containing plot title
+            legend_pos: string containing legend position
+            onlyval: boolean: only plot validation cases
+        """
+        
+        if len(label)==0:
+            label = 'none'
+        fig = pp.figure()
+        fig.set_facecolor(self.colors[0])
+        pp.rcParams['axes.facecolor'] = self.colors[1]
+        ax1 = fig.add_subplot(111)
+        if (not(onlyval)):
+            ytruec = self.res_ppdire.y0
+            if len(ytruec.shape) >1:
+                ytruec = np.array(ytruec).reshape(-1).astype('float64')
+            ypredc = np.array(self.res_ppdire.fitted_).T.reshape(-1)
+            labelcr = label + ' Training'
+            ax1.scatter(ytruec, ypredc, c=self.colors[2], label=labelcr,
+                    zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
+            pp.xlabel("y-true")
+            pp.ylabel("y-pred")
+            
+        else:
+            if (len(Xn)==0):
+                raise ValueError('In onlyval=True mode, new cases Xn need to be provided')
+        if not(len(Xn)==0):
+            if len(ytruev.shape) >1:
+                ytruev = np.array(ytruev).reshape(-1).astype('float64')
+            ypredv = self.res_ppdire.predict(Xn)
+            ypredv = np.array(ypredv).reshape(-1).astype('float64')
+            labelvr = label + ' Test'   
+            ax1.scatter(ytruev,ypredv,c=self.colors[5],label=labelvr,
+                        zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
+            pp.xlabel("y-true")
+            pp.ylabel("y-pred")
+           
+        x_abline = np.array(ax1.get_xbound())
+        ax1.add_line(pp.Line2D(x_abline,x_abline,color=self.colors[3]))
+        if len(label)==0:
+            ax1.legend_.remove()
+        else:
+            pp.legend(loc=legend_pos)
+        if len(names)>0:
+            if not(onlyval):
+                for i in range(0,len(names)):
+                    ax1.annotate(names[i], (ytruec[i],ypredc[i]))
+        if len(namesv)>0:
+            for i in range(0,len(namesv)):
+                ax1.annotate(namesv[i], (ytruev[i],ypredv[i]))
+        if len(title)>0:
+            pp.title(title)
+        pp.show()
+        
+    def plot_projections(self,Xn=[],label=[],components = [0,1],names=[],namesv=[],title=[],legend_pos='lower right',onlyval=False):
+        
+        """
+        plot_projections will plot the score space  
+        Optional inputs: 
+            Xn: array (new_cases,variables) of predictors 
+            If supplied, ppdire projections for new cases will be 
+                made from Xn through res_ppdire.transform()
+            label: string: name of variable to be plotted. Will show in legend.
+            names: list or tuple of strings, casenames from training set
+            namesv: list or tuple of strings, casenames from test set
+            title: String containing plot title
+            legend_pos: string containing legend position
+            onlyval: boolean: only plot validation cases
+        """
+        
+        if len(label)==0:
+            label = 'none'
+        fig = pp.figure()
+        fig.set_facecolor(self.colors[0])
+        pp.rcParams['axes.facecolor'] = self.colors[1]
+        ax1 = fig.add_subplot(111)
+        if (not(onlyval)):
+            Tc = np.array(self.res_ppdire.x_scores_)
+            labelcr = label + ' Training'
+            ax1.scatter(Tc[:,components[0]], Tc[:,components[1]], c=self.colors[2], label=labelcr, 
+                    zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
+        else:
+            if (len(Xn)==0):
+                raise ValueError('In onlyval=True mode, new cases Xn need to be provided')
+        if not(len(Xn)==0):
+            Tv = np.array(self.res_ppdire.transform(Xn))
+            labelvr = label + ' Test'  
+            ax1.scatter(Tv[:,components[0]], Tv[:,components[1]],c=self.colors[5],label=labelvr,
+                        zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
+        if len(label)==0:
+            ax1.legend_.remove()
+        else:
+            pp.legend(loc=legend_pos)
+        if len(names)>0:
+            if not(onlyval):
+                for i in range(0,len(names)):
+                    ax1.annotate(names[i], (Tc[i,components[0]], Tc[i,components[1]]))
+        if len(namesv)>0:
+            for i in range(0,len(namesv)):
+                ax1.annotate(namesv[i], (Tv[i,components[0]], Tv[i,components[1]]))
+        if len(title)>0:
+            pp.title(title)
+        pp.show()
+        
+        
+        
+
diff --git a/src/direpack/plot/sudire_plot.py b/src/direpack/plot/sudire_plot.py
index 1815b73..8df4fe9 100644
--- a/src/direpack/plot/sudire_plot.py
+++ b/src/direpack/plot/sudire_plot.py
@@ -1,155 +1,155 @@
-# -*- coding: utf-8 -*-
-"""
-Created on Sat Apr 11 17:25:42 2020
-
-@author: Emmanuel Jordy Menvouta
-"""
-
-from __future__ import absolute_import, division, print_function
-from __future__ import unicode_literals
-
-
-
-from ..sudire.sudire import sudire
-from ..utils.utils import MyException
-import matplotlib.pyplot as pp 
-import numpy as np
-
-
-class sudire_plot(sudire):
-    
-    def __init__(self,res_sudire,colors,markers=['o','d','v'],*args):
-        """
-        Initialize with 
-        res_sudire, a sudire class object
-        
-        Only mandatory input is colors, a list of colors for 
-            [0] borders of pane 
-            [1] plot background
-            [2] marker fill
-            [3] diagonal line 
-            [4] marker contour, if different from fill
-            [5] marker color for new cases, if applicable
-               
-        """
-        if not(isinstance(res_sudire,sudire)):
-            raise(MyException("Object supplied to sudireplot needs to be a sudire object"))
-        self.res_sudire = res_sudire
-        self.colors = colors
-        self.markers = markers
-        
-    def plot_yyp(self,ytruev=[],Xn=[],label=[],names=[],namesv=[],title=[],legend_pos='lower right',onlyval=False):
-        """
-        plot_yyp will plot y vs y predicted for sudire M opbjects
-        Optional inputs: 
-            ytruev: array (new_cases,) of predictands
-            Xn: array (new_cases,variables) of predictors 
-            If these arguments are supplied, sudire predictions for ytrue will be 
-                made from Xn through res_sudire.predict()
-            label: string: name of variable to be plotted. Will show in legend.
-            names: list or tuple of strings, casenames from training set
-            namesv: list or tuple of strings, casenames from test set
-            title: String containing plot title
-            legend_pos: string containing legend position
-            onlyval: boolean: only plot validation cases
-        """
-        
-        if len(label)==0:
-            label = 'none'
-        fig = pp.figure()
-        fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
-        ax1 = fig.add_subplot(111)
-        if (not(onlyval)):
-            ytruec = self.res_sudire.y0
-            if len(ytruec.shape) >1:
-                ytruec = np.array(ytruec).reshape(-1).astype('float64')
-            ypredc = np.array(self.res_sudire.ols_obj_.fittedvalues).T.reshape(-1)
-            
-            ax1.scatter(ytruec, ypredc, c=self.colors[2], label=label,
-                    zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
-            pp.xlabel("y-true")
-            pp.ylabel("y-pred")
-            
-        else:
-            if (len(Xn)==0):
-                raise ValueError('In onlyval=True mode, new cases Xn need to be provided')
-        if not(len(Xn)==0):
-            if len(ytruev.shape) >1:
-                ytruev = np.array(ytruev).reshape(-1).astype('float64')
-            ypredv = self.res_sudire.predict(Xn)
-            ypredv = np.array(ypredv).reshape(-1).astype('float64')
-                
-            ax1.scatter(ytruev,ypredv,c=self.colors[5],label=label,
-                        zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
-            pp.xlabel("y-true")
-            pp.ylabel("y-pred")
-           
-        x_abline = np.array(ax1.get_xbound())
-        ax1.add_line(pp.Line2D(x_abline,x_abline,color=self.colors[3]))
-        if len(label)==0:
-            ax1.legend_.remove()
-        else:
-            pp.legend(loc=legend_pos)
-        if len(names)>0:
-            if not(onlyval):
-                for i in range(0,len(names)):
-                    ax1.annotate(names[i], (ytruec[i],ypredc[i]))
-        if len(namesv)>0:
-            for i in range(0,len(namesv)):
-                ax1.annotate(namesv[i], (ytruev[i],ypredv[i]))
-        if len(title)>0:
-            pp.title(title)
-        pp.show()
-        
-    def plot_projections(self,Xn=[],label=[],components = [0,1],names=[],namesv=[],title=[],legend_pos='lower right',onlyval=False):
-        
-        """
-        plot_projections will plot the score space  
-        Optional inputs: 
-            Xn: array (new_cases,variables) of predictors 
-            If supplied, sudire projections for new cases will be 
-                made from Xn through res_sudire.transform()
-            label: string: name of variable to be plotted. Will show in legend.
-            names: list or tuple of strings, casenames from training set
-            namesv: list or tuple of strings, casenames from test set
-            title: String containing plot title
-            legend_pos: string containing legend position
-            onlyval: boolean: only plot validation cases
-        """
-        
-        if len(label)==0:
-            label = 'none'
-        fig = pp.figure()
-        fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
-        ax1 = fig.add_subplot(111)
-        if (not(onlyval)):
-            Tc = np.array(self.res_sudire.x_scores_)
-            ax1.scatter(Tc[:,components[0]], Tc[:,components[1]], c=self.colors[2], label=label, 
-                    zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
-        else:
-            if (len(Xn)==0):
-                raise ValueError('In onlyval=True mode, new cases Xn need to be provided')
-        if not(len(Xn)==0):
-            Tv = np.array(self.res_sudire.transform(Xn))
-            ax1.scatter(Tv[:,components[0]], Tv[:,components[1]],c=self.colors[5],label=label,
-                        zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
-        if len(label)==0:
-            ax1.legend_.remove()
-        else:
-            pp.legend(loc=legend_pos)
-        if len(names)>0:
-            if not(onlyval):
-                for i in range(0,len(names)):
-                    ax1.annotate(names[i], (Tc[i,components[0]], Tc[i,components[1]]))
-        if len(namesv)>0:
-            for i in range(0,len(namesv)):
-                ax1.annotate(namesv[i], (Tv[i,components[0]], Tv[i,components[1]]))
-        if len(title)>0:
-            pp.title(title)
-        pp.show()
-        
-        
-        
-
+# -*- coding: utf-8 -*-
+"""
+Created on Sat Apr 11 17:25:42 2020
+
+@author: Emmanuel Jordy Menvouta
+"""
+
+from __future__ import absolute_import, division, print_function
+from __future__ import unicode_literals
+
+
+
+from ..sudire.sudire import sudire
+from ..utils.utils import MyException
+import matplotlib.pyplot as pp 
+import numpy as np
+
+
+class sudire_plot(sudire):
+    
+    def __init__(self,res_sudire,colors,markers=['o','d','v'],*args):
+        """
+        Initialize with 
+        res_sudire, a sudire class object
+        
+        Only mandatory input is colors, a list of colors for 
+            [0] borders of pane 
+            [1] plot background
+            [2] marker fill
+            [3] diagonal line 
+            [4] marker contour, if different from fill
+            [5] marker color for new cases, if applicable
+               
+        """
+        if not(isinstance(res_sudire,sudire)):
+            raise(MyException("Object supplied to sudireplot needs to be a sudire object"))
+        self.res_sudire = res_sudire
+        self.colors = colors
+        self.markers = markers
+        
+    def plot_yyp(self,ytruev=[],Xn=[],label=[],names=[],namesv=[],title=[],legend_pos='lower right',onlyval=False):
+        """
+        plot_yyp will plot y vs y predicted for sudire M opbjects
+        Optional inputs: 
+            ytruev: array (new_cases,) of predictands
+            Xn: array (new_cases,variables) of predictors 
+            If these arguments are supplied, sudire predictions for ytrue will be 
+                made from Xn through res_sudire.predict()
+            label: string: name of variable to be plotted. Will show in legend.
+            names: list or tuple of strings, casenames from training set
+            namesv: list or tuple of strings, casenames from test set
+            title: String containing plot title
+            legend_pos: string containing legend position
+            onlyval: boolean: only plot validation cases
+        """
+        
+        if len(label)==0:
+            label = 'none'
+        fig = pp.figure()
+        fig.set_facecolor(self.colors[0])
+        pp.rcParams['axes.facecolor'] = self.colors[1]
+        ax1 = fig.add_subplot(111)
+        if (not(onlyval)):
+            ytruec = self.res_sudire.y0
+            if len(ytruec.shape) >1:
+                ytruec = np.array(ytruec).reshape(-1).astype('float64')
+            ypredc = np.array(self.res_sudire.ols_obj_.fittedvalues).T.reshape(-1)
+            
+            ax1.scatter(ytruec, ypredc, c=self.colors[2], label=label,
+                    zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
+            pp.xlabel("y-true")
+            pp.ylabel("y-pred")
+            
+        else:
+            if (len(Xn)==0):
+                raise ValueError('In onlyval=True mode, new cases Xn need to be provided')
+        if not(len(Xn)==0):
+            if len(ytruev.shape) >1:
+                ytruev = np.array(ytruev).reshape(-1).astype('float64')
+            ypredv = self.res_sudire.predict(Xn)
+            ypredv = np.array(ypredv).reshape(-1).astype('float64')
+                
+            ax1.scatter(ytruev,ypredv,c=self.colors[5],label=label,
+                        zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
+            pp.xlabel("y-true")
+            pp.ylabel("y-pred")
+           
+        x_abline = np.array(ax1.get_xbound())
+        ax1.add_line(pp.Line2D(x_abline,x_abline,color=self.colors[3]))
+        if len(label)==0:
+            ax1.legend_.remove()
+        else:
+            pp.legend(loc=legend_pos)
+        if len(names)>0:
+            if not(onlyval):
+                for i in range(0,len(names)):
+                    ax1.annotate(names[i], (ytruec[i],ypredc[i]))
+        if len(namesv)>0:
+            for i in range(0,len(namesv)):
+                ax1.annotate(namesv[i], (ytruev[i],ypredv[i]))
+        if len(title)>0:
+            pp.title(title)
+        pp.show()
+        
+    def plot_projections(self,Xn=[],label=[],components = [0,1],names=[],namesv=[],title=[],legend_pos='lower right',onlyval=False):
+        
+        """
+        plot_projections will plot the score space  
+        Optional inputs: 
+            Xn: array (new_cases,variables) of predictors 
+            If supplied, sudire projections for new cases will be 
+                made from Xn through res_sudire.transform()
+            label: string: name of variable to be plotted. Will show in legend.
+            names: list or tuple of strings, casenames from training set
+            namesv: list or tuple of strings, casenames from test set
+            title: String containing plot title
+            legend_pos: string containing legend position
+            onlyval: boolean: only plot validation cases
+        """
+        
+        if len(label)==0:
+            label = 'none'
+        fig = pp.figure()
+        fig.set_facecolor(self.colors[0])
+        pp.rcParams['axes.facecolor'] = self.colors[1]
+        ax1 = fig.add_subplot(111)
+        if (not(onlyval)):
+            Tc = np.array(self.res_sudire.x_scores_)
+            ax1.scatter(Tc[:,components[0]], Tc[:,components[1]], c=self.colors[2], label=label, 
+                    zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
+        else:
+            if (len(Xn)==0):
+                raise ValueError('In onlyval=True mode, new cases Xn need to be provided')
+        if not(len(Xn)==0):
+            Tv = np.array(self.res_sudire.transform(Xn))
+            ax1.scatter(Tv[:,components[0]], Tv[:,components[1]],c=self.colors[5],label=label,
+                        zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
+        if len(label)==0:
+            ax1.legend_.remove()
+        else:
+            pp.legend(loc=legend_pos)
+        if len(names)>0:
+            if not(onlyval):
+                for i in range(0,len(names)):
+                    ax1.annotate(names[i], (Tc[i,components[0]], Tc[i,components[1]]))
+        if len(namesv)>0:
+            for i in range(0,len(namesv)):
+                ax1.annotate(namesv[i], (Tv[i,components[0]], Tv[i,components[1]]))
+        if len(title)>0:
+            pp.title(title)
+        pp.show()
+        
+        
+        
+
diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index bc1e01d..682cd9d 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -1,839 +1,839 @@
-# -*- coding: utf-8 -*-
-
-import numpy as np
-from scipy.linalg import inv, sqrtm
-import copy
-from sklearn.utils.metaestimators import _BaseComposition
-from sklearn.base import RegressorMixin, BaseEstimator, TransformerMixin, defaultdict
-from ..preprocessing.robcent import VersatileScaler
-from ._sudire_utils import *
-from scipy.linalg import orth
-import warnings
-import statsmodels.robust.scale as srs
-from scipy.stats import trim_mean
-import dcor as dc
-
-# import Ball
-import statsmodels.api as sm
-import inspect
-from ..ipopt_temp.ipopt_wrapper import minimize_ipopt
-from ..ipopt_temp.jacobian import (
-    FunctionWithApproxJacobianCentral,
-    FunctionWithApproxJacobian,
-)
-from ..dicomo._dicomo_utils import *
-from ..utils.utils import *
-
-
-class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
-
-    """SUDIRE Sufficient Dimension Reduction 
-    
-    The class allows for Sufficient Dimension Reduction using a variety of 
-    methods. If the method requires optimization of a function, 
-    This optimization is done through the Interior Point Optimizer (IPOPT)
-    algorithm. 
-        
-    Parameters
-    ----------
-        sudiremeth: function or class. sudiremeth in this package can also be used, 
-        but user defined functions  can be processed. Built in options are : 
-
-            save : Sliced Average Variance Estimation
-
-            sir  : Slices Inverse Regression
-
-            dr   : Directional Regression 
-
-            iht  : Iterative Hessian Transformations
-
-            dcov-sdr : SDR via Distance Covariance 
-            
-            mdd-sdr : SDR via Martingale Difference Divergence.
-
-            bcov-sdr : SDR via ball covariance
-            
-        n_components : int 
-                      dimension of the central subspace.
-            
-        trimming : float
-                 trimming percentage to be entered as pct/100 
-        
-        optimizer_options : dict 
-                            with options to pass on to the optimizer.Includes: 
-
-        max_iter : int
-                     Maximal number of iterations.
-
-        tol: float
-             relative convergence tolerance
-
-        constr_viol_tol : float
-                        Desired threshold for the constraint violation.
-            
-        optimizer_constraints : dict or list of dicts
-                                 further constraints to be passed on to the 
-                                 optimizer function.
-            
-        optimizer_arguments: dict
-                             extra arguments to be passed to the sudiremeth 
-                             function during optimization.
-        
-        optimizer_start : numpy array
-                         starting value for the optimization.
-        
-        center : str
-             how to center the data. options accepted are options from sprm.preprocessing 
-            
-        center_data : bool 
-                    If True, the data will be centered before the dimension reduction   
-        
-        scale_data : bool
-                    if set to False, convergence to correct optimum  is not a given.
-                    Will throw a warning. 
-            
-        compression : bool
-                     Use internal data compresion step for flat data. 
-        
-        n_slices :  int
-                    The number of slices for SAVE, SIR, DR
-    
-        is_distance_mat : bool 
-                         if the inputed matrices for x and y are distance matrices.
-            
-        dmetric :  str
-                 distance metric used internally. Defaults to 'euclidean'
-        
-        fit_ols :  bool 
-                 if True, an OLS model is fitted after the dimension reduction.
-        
-        copy : bool
-              Whether to make a deep copy of the input data or not. 
-        
-        verbose : bool
-                 Set to True prints the iteration number. 
-        
-        return_scaling_object: bool. 
-                                If True, the scaling object will be return after the 
-                                dimension reduction. 
-
-    Attributes
-    ----------
-    Attributes always provided 
-        -  `x_loadings_`: Estimated basis of the central subspace 
-        -  `x_scores_`: The projected X data. 
-        -  `x_loc_`:  location estimate for X 
-        -  `x_sca_`:  scale estimate for X
-        - ` ols_obj` : fitted OLS objected
-        -  `y_loc_`: y location estimate
-        -  `y_sca_`: y scale estimate
-
-    Attributes created only when corresponding input flags are `True`:
-        -   `whitening_`: whitened data matrix (usually denoted K)
-        -   `scaling_object_`: scaling object from `VersatileScaler`  
-        
-    
-        
-    
-    """
-
-    def __init__(
-        self,
-        sudiremeth="dcov-sdr",
-        n_components=2,
-        trimming=0,
-        optimizer_options={"max_iter": 1000},
-        optimizer_constraints=None,
-        optimizer_arguments=None,
-        optimizer_start=None,
-        center_data=True,
-        center="mean",
-        scale_data=True,
-        whiten_data=False,
-        compression=False,
-        n_slices=6,
-        dmetric="euclidean",
-        fit_ols=True,
-        copy=True,
-        response_type="continuous",
-        verbose=True,
-        return_scaling_object=True,
-    ):
-        # Called arguments
-        self.sudiremeth = sudiremeth
-        self.n_components = n_components
-        self.trimming = trimming
-        self.optimizer_options = optimizer_options
-        self.optimizer_constraints = optimizer_constraints
-        self.optimizer_arguments = optimizer_arguments
-        self.optimizer_start = optimizer_start
-        self.center = center
-        self.center_data = center_data
-        self.scale_data = scale_data
-        self.whiten_data = whiten_data
-        self.compression = compression
-        self.n_slices = n_slices
-        self.dmetric = dmetric
-        self.fit_ols = fit_ols
-        self.copy = copy
-        self.response_type = response_type
-        self.verbose = verbose
-        self.return_scaling_object = return_scaling_object
-
-        # Other global parameters
-        self.licenter = ["mean", "median"]
-        if not (self.center in self.licenter):
-            raise (
-                ValueError(
-                    'Only location estimator classes allowed are: "mean", "median"'
-                )
-            )
-        self.limeths = [
-            "sir",
-            "save",
-            "dr",
-            "dcov-sdr",
-            "bcov-sdr",
-            "mdd-sdr",
-            "phd",
-            "iht",
-        ]
-        if not (self.sudiremeth in self.limeths) and not callable(self.sudiremeth):
-            raise (
-                ValueError(
-                    'Only SDR methods allowed are : "sir", "save", "dr", "dcov-sdr","bcov-sdr", "mdd-sdr", "iht","phd"'
-                )
-            )
-
-    def fit(self, X, y, *args, **kwargs):
-
-        """
-        Fit a Sufficient Dimension Reduction Model. 
-        
-        Parameters
-        ----------
-                X : matrix or data frame 
-                    Input data of predictors  
-
-                y :  vector or 1D matrix
-                    Response data
-                
-                args or kwargs : 
-                                Further parameters to user defined sudiremeth can be passed here  
-        Returns
-        -------
-            self
-        
-        -------
-        """
-
-        # Collect optional fit arguments
-
-        if "dmetric" not in kwargs:
-            dmetric = self.dmetric
-        else:
-            dmetric = kwargs.get("dmetric")
-        if "biascorr" not in kwargs:
-            biascorr = False
-        else:
-            biascorr = kwargs.get("biascorr")
-        if "flag" not in kwargs:
-            flag = "two-block"
-        else:
-            flag = kwargs.get("flag")
-        if "is_distance_mat" not in kwargs:
-            is_distance_mat = False
-        else:
-            is_distance_mat = kwargs.pop("is_distance_mat")
-        # Initiate some parameters and data frames
-        if self.copy:
-            X0 = copy.deepcopy(X)
-            self.X0 = X0
-        else:
-            X0 = X
-        X = convert_X_input(X0)
-        n, p = X0.shape
-        trimming = self.trimming
-
-        # Check dimensions
-        if self.n_components < 1:
-            raise (MyException("number of components has to be positive"))
-        if self.n_components > min(n, p):
-            raise (
-                MyException(
-                    "number of components cannot exceed number of variables or sample size"
-                )
-            )
-        # Pre-processing adjustment if whitening
-        center_data, scale_data = self.center_data, self.scale_data
-        compression = self.compression
-        if self.whiten_data:
-            center_data = True
-            scale_data = False
-            compression = False
-            print("All results produced are for whitened data")
-        # Store original X data mean and varcov matrix.
-        varmatx = np.cov(X, rowvar=0)
-        meanx = X.mean(axis=0)
-        N2 = inv(sqrtm(varmatx))
-
-        # Data Compression for flat tables if required
-        if (p > n) and compression:
-            V, S, U = np.linalg.svd(X.T, full_matrices=False)
-            X = np.matmul(U.T, np.diag(S))
-            n, p = X.shape
-
-            if (srs.mad(X) == 0).any():
-                warnings.warn(
-                    "Due to low scales in data, compression would induce zero scales."
-                    + "\n"
-                    + "Proceeding without compression."
-                )
-                dimensions = False
-                if copy:
-                    X = copy.deepcopy(X0)
-                else:
-                    X = X0
-            else:
-                dimensions = True
-        else:
-            dimensions = False
-
-            # Centring and scaling
-            # centering :
-        if center_data:
-            if self.center != "mean":
-                centring = VersatileScaler(
-                    center=self.center, scale="None", trimming=self.trimming
-                )
-                Xs = centring.fit_transform(X0)
-                mX = centring.col_loc_
-                sX = centring.col_sca_
-            else:
-                Xs = X - trim_mean(X, self.trimming, axis=0)
-                mX = trim_mean(X, self.trimming, axis=0)
-                sX = np.sqrt(np.diag(varmatx))
-        else:
-            Xs = X
-            mX = np.zeros((1, p))
-            sX = np.ones((1, p))
-        if scale_data:
-            if self.center == "mean":
-                scale = "std"
-                N2 = inv(sqrtm(varmatx))
-                Xs = np.matmul(Xs, N2)
-            elif (self.center == "median") or (self.center == "l1median"):
-                scale = "mad"
-                centring = VersatileScaler(
-                    center=self.center, scale=scale, trimming=trimming
-                )
-                Xs = centring.fit_transform(X0)
-                mX = centring.col_loc_
-                sX = centring.col_sca_
-                N2 = np.diag(1 / np.ravel(sX))
-            else:
-                raise (
-                    MyException(
-                        'centering options have to be either "mean", "median", or "l1median"'
-                    )
-                )
-        else:
-            scale = "None"
-            warnings.warn("Without scaling, convergence to optima is not given")
-        # Initiate centring object and scale X data
-
-        if self.whiten_data:
-            V, S, U = np.linalg.svd(Xs.T, full_matrices=False)
-            del U
-            K = (V / S)[:, :p]
-            del S
-            Xs = np.matmul(Xs, K)
-            Xs *= np.sqrt(p)
-            # directions are found for the whitened data and mapped back
-            N2 = K * np.sqrt(p)
-            scale_data = True
-        # Pre-process y data
-        ny = y.shape[0]
-        y = convert_y_input(y)
-        if len(y.shape) < 2:
-            y = np.array(y).reshape((ny, 1))
-        if ny != n:
-            raise (MyException("X and y number of rows must agree"))
-        # Pre-process y data when available
-        if flag != "one-block":
-            ny = y.shape[0]
-            y = convert_y_input(y)
-            if len(y.shape) < 2:
-                y = np.array(y).reshape((ny, 1))
-            if ny != n:
-                raise (MyException("X and y number of rows must agree"))
-            if self.copy:
-                y0 = copy.deepcopy(y)
-            else:
-                y0 = y
-            self.y0 = y0
-            if center_data:
-                ys = y  # dont center y
-                my = np.mean(y, axis=0)
-                sy = np.sqrt(np.var(y, axis=0))
-            else:
-                ys = y
-                my = 0
-                sy = 1
-            ys = ys.astype("float64")
-        else:
-            ys = None
-        if self.sudiremeth == "sir":
-            P = SIR(
-                Xs,
-                ys,
-                self.n_slices,
-                self.n_components,
-                self.response_type,
-                center_data,
-                scale_data,
-            )
-            if scale_data:
-                P = np.matmul(N2, P)
-            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(X0, P)
-        elif self.sudiremeth == "save":
-            P = SAVE(
-                Xs,
-                ys,
-                self.n_slices,
-                self.n_components,
-                self.response_type,
-                center_data,
-                scale_data,
-            )
-            if scale_data:
-                P = np.matmul(N2, P)
-            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(X0, P)
-        elif self.sudiremeth == "dr":
-            P = DR(
-                Xs,
-                ys,
-                self.n_slices,
-                self.n_components,
-                self.response_type,
-                center_data,
-                scale_data,
-            )
-            if scale_data:
-                P = np.matmul(N2, P)
-            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(X0, P)
-        elif self.sudiremeth == "phd":
-            P = PHD(Xs, ys, self.n_components, center_data, scale_data)
-            if scale_data:
-                P = np.matmul(N2, P)
-            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(X0, P)
-        elif self.sudiremeth == "iht":
-            P = IHT(Xs, ys, self.n_components, center_data, scale_data)
-            if scale_data:
-                P = np.matmul(N2, P)
-            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(X0, P)
-        else:  # SDR obtained through optimization of some function
-
-            optimizer_start = self.optimizer_start
-            optimizer_constraints = self.optimizer_constraints
-            optimizer_arguments = self.optimizer_arguments
-            ## choose starting value for DCOV-SDR
-            if optimizer_start is None:
-                save_start = SAVE(
-                    Xs, ys, 3, self.n_components, self.response_type, center_data, scale_data
-                )
-                sir_start = SIR(
-                    Xs, ys, 6, self.n_components, self.response_type, center_data, scale_data
-                )
-                beta_save = orth(save_start)
-                dc_save = dc.distance_covariance_sqr(np.matmul(Xs, beta_save), y)
-                beta_sir = orth(sir_start)
-                dc_sir = dc.distance_covariance_sqr(np.matmul(Xs, beta_sir), y)
-                DR_start = DR(
-                    Xs, y, 6, self.n_components, self.response_type, center_data, scale_data
-                )
-                beta_DR = orth(DR_start)
-                dc_DR = dc.distance_covariance_sqr(np.matmul(Xs, beta_DR), y)
-                if dc_save >= dc_sir and dc_save >= dc_DR:
-                    optimizer_start = save_start.flatten(order="F")
-                elif dc_sir >= dc_save and dc_sir >= dc_DR:
-                    optimizer_start = sir_start.flatten(order="F")
-                else:
-                    optimizer_start = DR_start.flatten(order="F")
-            ## add constraints for the optimization
-            if optimizer_constraints is None:
-                const_x = []
-                const_z = []
-                for i in range(0, self.n_components):
-                    for j in range(0, self.n_components):
-                        const_x.append(
-                            {
-                                "type": "eq",
-                                "fun": const_xscale,
-                                "args": (Xs, self.n_components, i, j),
-                            }
-                        )  # change const2 to const_func
-                        const_z.append(
-                            {
-                                "type": "eq",
-                                "fun": const_zscale,
-                                "args": (Xs, self.n_components, i, j),
-                            }
-                        )
-                if scale_data:
-                    optimizer_constraints = tuple(const_z)
-                else:
-                    optimizer_constraints = tuple(const_x)
-            if optimizer_arguments is None:
-                optimizer_arguments = (
-                    Xs,
-                    ys,
-                    self.n_components,
-                    N2,
-                    is_distance_mat,
-                    self.trimming,
-                    self.center,
-                    dmetric,
-                    biascorr,
-                )
-            # perform DCOV-SDR optimization
-            res = minimize_ipopt(
-                dcov_trim,
-                optimizer_start,
-                args=optimizer_arguments,
-                constraints=optimizer_constraints,
-                options=self.optimizer_options,
-            )
-            if scale_data:
-                dcov_res = np.matmul(
-                    N2, np.reshape(res.x, (-1, self.n_components), order="F")
-                )
-            else:
-                dcov_res = np.reshape(res.x, (-1, self.n_components), order="F")
-            if self.sudiremeth == "dcov-sdr":
-                P = dcov_res
-                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(X0, P)
-            elif self.sudiremeth == "bcov-sdr":
-                optimizer_start = res.x
-                res_ball = minimize_ipopt(
-                    ballcov_func,
-                    optimizer_start,
-                    args=optimizer_arguments,
-                    constraints=optimizer_constraints,
-                    options=self.optimizer_options,
-                )
-                if scale_data:
-                    P = np.matmul(
-                        N2, np.reshape(res_ball.x, (-1, self.n_components), order="F")
-                    )
-                else:
-                    P = np.reshape(res_ball.x, (-1, self.n_components), order="F")
-                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(X0, P)
-            elif self.sudiremeth == "mdd-sdr":
-                optimizer_start = res.x
-                res_mdd = minimize_ipopt(
-                    mdd_trim,
-                    optimizer_start,
-                    args=optimizer_arguments,
-                    constraints=optimizer_constraints,
-                    options=self.optimizer_options,
-                )
-                if scale_data:
-                    P = np.matmul(
-                        N2, np.reshape(res_mdd.x, (-1, self.n_components), order="F")
-                    )
-                else:
-                    P = np.reshape(res_mdd.x, (-1, self.n_components), order="F")
-                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(X0, P)
-            else:  ## user defined function
-                optimizer_start = res.x
-                opt_res = minimize_ipopt(
-                    self.sudiremeth,
-                    optimizer_start,
-                    args=optimizer_arguments,
-                    constraints=optimizer_constraints,
-                    options=self.optimizer_options,
-                )
-                if scale_data:
-                    P = np.matmul(
-                        N2, np.reshape(opt_res.x, (-1, self.n_components), order="F")
-                    )
-                else:
-                    P = np.reshape(opt_res.x, (-1, self.n_components), order="F")
-                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(X0, P)
-        # perform OLS regression
-        T_reg = sm.add_constant(T)  # adding a constant
-        ols_obj = sm.OLS(ys, T_reg).fit()
-
-        # Re-adjust estimates to original dimensions if data have been compressed
-        if dimensions:
-            P = np.matmul(V[:, 0:p], P)
-        setattr(self, "x_loadings_", P)
-        setattr(self, "x_scores_", T)
-        setattr(self, "proj_mat_", projMat)
-        if self.whiten_data:
-            setattr(self, "whitening_", K)
-        setattr(self, "x_loc_", mX)
-        setattr(self, "x_sca_", sX)
-        setattr(self, "y_loc_", my)
-        setattr(self, "y_sca_", sy)
-        setattr(self, "scaling_", scale)
-        setattr(self, "ols_obj_", ols_obj)
-        if (
-            self.return_scaling_object
-            and self.center != "mean"
-            and (center_data or scale_data)
-        ):
-            setattr(self, "scaling_object_", centring)
-        return self
-
-    def transform(self, Xn, distance_mat=False):
-        """
-        Computes the dimension reduction of the data Xn based on the fitted sudire model.
-
-        Parameters
-        ----------
-                Xn : matrix or data frame
-                     Input data to be transformed 
-
-                distance_mat : numpy array 
-                                 distance matrix to represent similarity between observations. 
-                
-                args or kwargs: 
-                                Further parameters to user defined sufdiremeth can be passed here  
-        Returns
-        -------
-        transformed_data : numpy array
-                             the dimension reduced data 
-
-         -------
-        """
-        Xn = convert_X_input(Xn)
-        (n, p) = Xn.shape
-        (q, h) = self.x_loadings_.shape
-        if p != q:
-            raise (
-                ValueError(
-                    "New data must have same number of columns as the ones the model has been trained with"
-                )
-            )
-        return np.matmul(Xn, self.x_loadings_)
-
-    def predict(self, Xn, is_distance_mat=False):
-        """
-        predicts the response  on new data Xn
-
-        Parameters
-        ----------
-                Xn : matrix or data frame
-                     Input data to be transformed 
-
-                is_distance_mat : bool 
-                                 if True, Xn is treated as a distance matrix 
-                
-        Returns
-        -------
-        predictions : numpy array 
-                      The predictions from the dimension reduction model
-        -------
-        """
-        Xn = convert_X_input(Xn)
-        (n, p) = Xn.shape
-        (q, h) = self.x_loadings_.shape
-        if p != q:
-            raise (
-                ValueError(
-                    "New data must have same number of columns as the ones the model has been trained with"
-                )
-            )
-        Xns = self.transform(Xn)
-        Xns = sm.add_constant(Xns, has_constant="add")  # adding a constant
-        ys = self.ols_obj_.predict(Xns)
-        return ys
-
-    @classmethod
-    def _get_param_names(cls):
-        """Get parameter names for the estimator"""
-        # fetch the constructor or the original constructor before
-        # deprecation wrapping if any
-        init = getattr(cls.__init__, "deprecated_original", cls.__init__)
-        if init is object.__init__:
-            # No explicit constructor to introspect
-            return []
-        # introspect the constructor arguments to find the model parameters
-        # to represent
-        init_signature = inspect.signature(init)
-        # Consider the constructor parameters excluding 'self'
-        parameters = [
-            p
-            for p in init_signature.parameters.values()
-            if p.name != "self" and p.kind != p.VAR_KEYWORD
-        ]
-        for p in parameters:
-            if p.kind == p.VAR_POSITIONAL:
-                raise RuntimeError(
-                    "scikit-learn estimators should always "
-                    "specify their parameters in the signature"
-                    " of their __init__ (no varargs)."
-                    " %s with constructor %s doesn't "
-                    " follow this convention." % (cls, init_signature)
-                )
-        # Extract and sort argument names excluding 'self'
-        return sorted([p.name for p in parameters])
-
-    def get_params(self, deep=False):
-        """Get parameters for this estimator.
-        Parameters
-        ----------
-        deep : boolean, optional
-            If True, will return the parameters for this estimator and
-            contained subobjects that are estimators.
-        Returns
-        -------
-        params : mapping of string to any
-            Parameter names mapped to their values.
-        ------
-        Copied from ScikitLlearn instead of imported to avoid 'deep=True'
-        """
-        out = dict()
-        for key in self._get_param_names():
-            value = getattr(self, key, None)
-            if deep and hasattr(value, "get_params"):
-                deep_items = value.get_params().items()
-                out.update((key + "__" + k, val) for k, val in deep_items)
-            out[key] = value
-        return out
-
-    def set_params(self, **params):
-        """Set the parameters of this estimator.
-        Copied from ScikitLearn, adapted to avoid calling 'deep=True'
-        
-        Returns
-        -------
-        self
-        ------
-        Copied from ScikitLlearn instead of imported to avoid 'deep=True'
-        """
-        if not params:
-            # Simple optimization to gain speed (inspect is slow)
-            return self
-        valid_params = self.get_params()
-
-        nested_params = defaultdict(dict)  # grouped by prefix
-        for key, value in params.items():
-            key, delim, sub_key = key.partition("__")
-            if key not in valid_params:
-                raise ValueError(
-                    "Invalid parameter %s for estimator %s. "
-                    "Check the list of available parameters "
-                    "with `estimator.get_params().keys()`." % (key, self)
-                )
-            if delim:
-                nested_params[key][sub_key] = value
-            else:
-                setattr(self, key, value)
-                valid_params[key] = value
-        for key, sub_params in nested_params.items():
-            valid_params[key].set_params(**sub_params)
-        return self
-
-
-def estimate_structural_dim(sudiremeth, Xn, y, B, *args, **kwargs):
-    """
-    Estimates the dimension of the central subspace using 
-    the sudiremeth.  This approach is based on the bootstrap method of Sheng and Yin (2016)
-    
-    Parameters
-    ----------
-
-        sudiremeth : str
-                    the SDR method to use in the estimation.
-
-        X :  numpy array or dataframe
-            Input X data
-
-        Y : vector or 1d matrix
-            Input Y data as 
-
-        B : int 
-            Number of bootstrap replications
-
-        kwargs:
-
-            n_slices: number of slices for SIR/SAVE/DR
-
-            center_data, bool : if the data  should be centered 
-
-            scale_data, bool :  if the data should be scaled
-
-            center, string :   which centering('mean', 'median')
-            
-    Returns
-    ----------     
-
-    h : int 
-        representing the dimension of the central subspace
-
-    ----------
-    """
-    if "n_slices" not in kwargs:
-        n_slices = 6
-    else:
-        n_slices = kwargs.pop("n_slices")
-    if "center_data" not in kwargs:
-        center_data = True
-    else:
-        center_data = kwargs.pop("center_data")
-    if "scale_data" not in kwargs:
-        scale_data = True
-    else:
-        scale_data = kwargs.pop("scale_data")
-    if "center" not in kwargs:
-        center = "mean"
-    else:
-        center = kwargs.pop("center")
-    Xn = convert_X_input(Xn)
-    y = convert_y_input(y)
-    n, p = Xn.shape
-
-    diff_b = []
-    mean_diff = []
-    for k in range(1, p + 1):
-        print("possible dim", k)
-        sdr = sudire(
-            sudiremeth,
-            center_data=center_data,
-            scale_data=scale_data,
-            center=center,
-            n_slices=n_slices,
-            n_components=k,
-        )
-        sdr.fit(Xn, y=y)
-        projMat = sdr.proj_mat_
-
-        for b in range(B):
-            idx = np.random.randint(0, n, n)
-            X_b = Xn[idx, :].copy()
-            sdr_b = sudire(
-                sudiremeth,
-                center_data=center_data,
-                scale_data=scale_data,
-                center=center,
-                n_slices=n_slices,
-                n_components=k,
-            )
-            sdr_b.fit(X_b, y=y[idx])
-            projMat_b = sdr_b.proj_mat_
-            uh, sh, vh = np.linalg.svd(projMat - projMat_b)
-            diff_b.append(np.nanmax(sh))
-        mean_diff.append(np.mean(diff_b))
-    return (np.argmin(mean_diff) + 1, mean_diff)
+# -*- coding: utf-8 -*-
+
+import numpy as np
+from scipy.linalg import inv, sqrtm
+import copy
+from sklearn.utils.metaestimators import _BaseComposition
+from sklearn.base import RegressorMixin, BaseEstimator, TransformerMixin, defaultdict
+from ..preprocessing.robcent import VersatileScaler
+from ._sudire_utils import *
+from scipy.linalg import orth
+import warnings
+import statsmodels.robust.scale as srs
+from scipy.stats import trim_mean
+import dcor as dc
+
+# import Ball
+import statsmodels.api as sm
+import inspect
+from ..ipopt_temp.ipopt_wrapper import minimize_ipopt
+from ..ipopt_temp.jacobian import (
+    FunctionWithApproxJacobianCentral,
+    FunctionWithApproxJacobian,
+)
+from ..dicomo._dicomo_utils import *
+from ..utils.utils import *
+
+
+class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
+
+    """SUDIRE Sufficient Dimension Reduction 
+    
+    The class allows for Sufficient Dimension Reduction using a variety of 
+    methods. If the method requires optimization of a function, 
+    This optimization is done through the Interior Point Optimizer (IPOPT)
+    algorithm. 
+        
+    Parameters
+    ----------
+        sudiremeth: function or class. sudiremeth in this package can also be used, 
+        but user defined functions  can be processed. Built in options are : 
+
+            save : Sliced Average Variance Estimation
+
+            sir  : Slices Inverse Regression
+
+            dr   : Directional Regression 
+
+            iht  : Iterative Hessian Transformations
+
+            dcov-sdr : SDR via Distance Covariance 
+            
+            mdd-sdr : SDR via Martingale Difference Divergence.
+
+            bcov-sdr : SDR via ball covariance
+            
+        n_components : int 
+                      dimension of the central subspace.
+            
+        trimming : float
+                 trimming percentage to be entered as pct/100 
+        
+        optimizer_options : dict 
+                            with options to pass on to the optimizer.Includes: 
+
+        max_iter : int
+                     Maximal number of iterations.
+
+        tol: float
+             relative convergence tolerance
+
+        constr_viol_tol : float
+                        Desired threshold for the constraint violation.
+            
+        optimizer_constraints : dict or list of dicts
+                                 further constraints to be passed on to the 
+                                 optimizer function.
+            
+        optimizer_arguments: dict
+                             extra arguments to be passed to the sudiremeth 
+                             function during optimization.
+        
+        optimizer_start : numpy array
+                         starting value for the optimization.
+        
+        center : str
+             how to center the data. options accepted are options from sprm.preprocessing 
+            
+        center_data : bool 
+                    If True, the data will be centered before the dimension reduction   
+        
+        scale_data : bool
+                    if set to False, convergence to correct optimum  is not a given.
+                    Will throw a warning. 
+            
+        compression : bool
+                     Use internal data compresion step for flat data. 
+        
+        n_slices :  int
+                    The number of slices for SAVE, SIR, DR
+    
+        is_distance_mat : bool 
+                         if the inputed matrices for x and y are distance matrices.
+            
+        dmetric :  str
+                 distance metric used internally. Defaults to 'euclidean'
+        
+        fit_ols :  bool 
+                 if True, an OLS model is fitted after the dimension reduction.
+        
+        copy : bool
+              Whether to make a deep copy of the input data or not. 
+        
+        verbose : bool
+                 Set to True prints the iteration number. 
+        
+        return_scaling_object: bool. 
+                                If True, the scaling object will be return after the 
+                                dimension reduction. 
+
+    Attributes
+    ----------
+    Attributes always provided 
+        -  `x_loadings_`: Estimated basis of the central subspace 
+        -  `x_scores_`: The projected X data. 
+        -  `x_loc_`:  location estimate for X 
+        -  `x_sca_`:  scale estimate for X
+        - ` ols_obj` : fitted OLS objected
+        -  `y_loc_`: y location estimate
+        -  `y_sca_`: y scale estimate
+
+    Attributes created only when corresponding input flags are `True`:
+        -   `whitening_`: whitened data matrix (usually denoted K)
+        -   `scaling_object_`: scaling object from `VersatileScaler`  
+        
+    
+        
+    
+    """
+
+    def __init__(
+        self,
+        sudiremeth="dcov-sdr",
+        n_components=2,
+        trimming=0,
+        optimizer_options={"max_iter": 1000},
+        optimizer_constraints=None,
+        optimizer_arguments=None,
+        optimizer_start=None,
+        center_data=True,
+        center="mean",
+        scale_data=True,
+        whiten_data=False,
+        compression=False,
+        n_slices=6,
+        dmetric="euclidean",
+        fit_ols=True,
+        copy=True,
+        response_type="continuous",
+        verbose=True,
+        return_scaling_object=True,
+    ):
+        # Called arguments
+        self.sudiremeth = sudiremeth
+        self.n_components = n_components
+        self.trimming = trimming
+        self.optimizer_options = optimizer_options
+        self.optimizer_constraints = optimizer_constraints
+        self.optimizer_arguments = optimizer_arguments
+        self.optimizer_start = optimizer_start
+        self.center = center
+        self.center_data = center_data
+        self.scale_data = scale_data
+        self.whiten_data = whiten_data
+        self.compression = compression
+        self.n_slices = n_slices
+        self.dmetric = dmetric
+        self.fit_ols = fit_ols
+        self.copy = copy
+        self.response_type = response_type
+        self.verbose = verbose
+        self.return_scaling_object = return_scaling_object
+
+        # Other global parameters
+        self.licenter = ["mean", "median"]
+        if not (self.center in self.licenter):
+            raise (
+                ValueError(
+                    'Only location estimator classes allowed are: "mean", "median"'
+                )
+            )
+        self.limeths = [
+            "sir",
+            "save",
+            "dr",
+            "dcov-sdr",
+            "bcov-sdr",
+            "mdd-sdr",
+            "phd",
+            "iht",
+        ]
+        if not (self.sudiremeth in self.limeths) and not callable(self.sudiremeth):
+            raise (
+                ValueError(
+                    'Only SDR methods allowed are : "sir", "save", "dr", "dcov-sdr","bcov-sdr", "mdd-sdr", "iht","phd"'
+                )
+            )
+
+    def fit(self, X, y, *args, **kwargs):
+
+        """
+        Fit a Sufficient Dimension Reduction Model. 
+        
+        Parameters
+        ----------
+                X : matrix or data frame 
+                    Input data of predictors  
+
+                y :  vector or 1D matrix
+                    Response data
+                
+                args or kwargs : 
+                                Further parameters to user defined sudiremeth can be passed here  
+        Returns
+        -------
+            self
+        
+        -------
+        """
+
+        # Collect optional fit arguments
+
+        if "dmetric" not in kwargs:
+            dmetric = self.dmetric
+        else:
+            dmetric = kwargs.get("dmetric")
+        if "biascorr" not in kwargs:
+            biascorr = False
+        else:
+            biascorr = kwargs.get("biascorr")
+        if "flag" not in kwargs:
+            flag = "two-block"
+        else:
+            flag = kwargs.get("flag")
+        if "is_distance_mat" not in kwargs:
+            is_distance_mat = False
+        else:
+            is_distance_mat = kwargs.pop("is_distance_mat")
+        # Initiate some parameters and data frames
+        if self.copy:
+            X0 = copy.deepcopy(X)
+            self.X0 = X0
+        else:
+            X0 = X
+        X = convert_X_input(X0)
+        n, p = X0.shape
+        trimming = self.trimming
+
+        # Check dimensions
+        if self.n_components < 1:
+            raise (MyException("number of components has to be positive"))
+        if self.n_components > min(n, p):
+            raise (
+                MyException(
+                    "number of components cannot exceed number of variables or sample size"
+                )
+            )
+        # Pre-processing adjustment if whitening
+        center_data, scale_data = self.center_data, self.scale_data
+        compression = self.compression
+        if self.whiten_data:
+            center_data = True
+            scale_data = False
+            compression = False
+            print("All results produced are for whitened data")
+        # Store original X data mean and varcov matrix.
+        varmatx = np.cov(X, rowvar=0)
+        meanx = X.mean(axis=0)
+        N2 = inv(sqrtm(varmatx))
+
+        # Data Compression for flat tables if required
+        if (p > n) and compression:
+            V, S, U = np.linalg.svd(X.T, full_matrices=False)
+            X = np.matmul(U.T, np.diag(S))
+            n, p = X.shape
+
+            if (srs.mad(X) == 0).any():
+                warnings.warn(
+                    "Due to low scales in data, compression would induce zero scales."
+                    + "\n"
+                    + "Proceeding without compression."
+                )
+                dimensions = False
+                if copy:
+                    X = copy.deepcopy(X0)
+                else:
+                    X = X0
+            else:
+                dimensions = True
+        else:
+            dimensions = False
+
+            # Centring and scaling
+            # centering :
+        if center_data:
+            if self.center != "mean":
+                centring = VersatileScaler(
+                    center=self.center, scale="None", trimming=self.trimming
+                )
+                Xs = centring.fit_transform(X0)
+                mX = centring.col_loc_
+                sX = centring.col_sca_
+            else:
+                Xs = X - trim_mean(X, self.trimming, axis=0)
+                mX = trim_mean(X, self.trimming, axis=0)
+                sX = np.sqrt(np.diag(varmatx))
+        else:
+            Xs = X
+            mX = np.zeros((1, p))
+            sX = np.ones((1, p))
+        if scale_data:
+            if self.center == "mean":
+                scale = "std"
+                N2 = inv(sqrtm(varmatx))
+                Xs = np.matmul(Xs, N2)
+            elif (self.center == "median") or (self.center == "l1median"):
+                scale = "mad"
+                centring = VersatileScaler(
+                    center=self.center, scale=scale, trimming=trimming
+                )
+                Xs = centring.fit_transform(X0)
+                mX = centring.col_loc_
+                sX = centring.col_sca_
+                N2 = np.diag(1 / np.ravel(sX))
+            else:
+                raise (
+                    MyException(
+                        'centering options have to be either "mean", "median", or "l1median"'
+                    )
+                )
+        else:
+            scale = "None"
+            warnings.warn("Without scaling, convergence to optima is not given")
+        # Initiate centring object and scale X data
+
+        if self.whiten_data:
+            V, S, U = np.linalg.svd(Xs.T, full_matrices=False)
+            del U
+            K = (V / S)[:, :p]
+            del S
+            Xs = np.matmul(Xs, K)
+            Xs *= np.sqrt(p)
+            # directions are found for the whitened data and mapped back
+            N2 = K * np.sqrt(p)
+            scale_data = True
+        # Pre-process y data
+        ny = y.shape[0]
+        y = convert_y_input(y)
+        if len(y.shape) < 2:
+            y = np.array(y).reshape((ny, 1))
+        if ny != n:
+            raise (MyException("X and y number of rows must agree"))
+        # Pre-process y data when available
+        if flag != "one-block":
+            ny = y.shape[0]
+            y = convert_y_input(y)
+            if len(y.shape) < 2:
+                y = np.array(y).reshape((ny, 1))
+            if ny != n:
+                raise (MyException("X and y number of rows must agree"))
+            if self.copy:
+                y0 = copy.deepcopy(y)
+            else:
+                y0 = y
+            self.y0 = y0
+            if center_data:
+                ys = y  # dont center y
+                my = np.mean(y, axis=0)
+                sy = np.sqrt(np.var(y, axis=0))
+            else:
+                ys = y
+                my = 0
+                sy = 1
+            ys = ys.astype("float64")
+        else:
+            ys = None
+        if self.sudiremeth == "sir":
+            P = SIR(
+                Xs,
+                ys,
+                self.n_slices,
+                self.n_components,
+                self.response_type,
+                center_data,
+                scale_data,
+            )
+            if scale_data:
+                P = np.matmul(N2, P)
+            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+            T = np.matmul(X0, P)
+        elif self.sudiremeth == "save":
+            P = SAVE(
+                Xs,
+                ys,
+                self.n_slices,
+                self.n_components,
+                self.response_type,
+                center_data,
+                scale_data,
+            )
+            if scale_data:
+                P = np.matmul(N2, P)
+            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+            T = np.matmul(X0, P)
+        elif self.sudiremeth == "dr":
+            P = DR(
+                Xs,
+                ys,
+                self.n_slices,
+                self.n_components,
+                self.response_type,
+                center_data,
+                scale_data,
+            )
+            if scale_data:
+                P = np.matmul(N2, P)
+            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+            T = np.matmul(X0, P)
+        elif self.sudiremeth == "phd":
+            P = PHD(Xs, ys, self.n_components, center_data, scale_data)
+            if scale_data:
+                P = np.matmul(N2, P)
+            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+            T = np.matmul(X0, P)
+        elif self.sudiremeth == "iht":
+            P = IHT(Xs, ys, self.n_components, center_data, scale_data)
+            if scale_data:
+                P = np.matmul(N2, P)
+            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+            T = np.matmul(X0, P)
+        else:  # SDR obtained through optimization of some function
+
+            optimizer_start = self.optimizer_start
+            optimizer_constraints = self.optimizer_constraints
+            optimizer_arguments = self.optimizer_arguments
+            ## choose starting value for DCOV-SDR
+            if optimizer_start is None:
+                save_start = SAVE(
+                    Xs, ys, 3, self.n_components, self.response_type, center_data, scale_data
+                )
+                sir_start = SIR(
+                    Xs, ys, 6, self.n_components, self.response_type, center_data, scale_data
+                )
+                beta_save = orth(save_start)
+                dc_save = dc.distance_covariance_sqr(np.matmul(Xs, beta_save), y)
+                beta_sir = orth(sir_start)
+                dc_sir = dc.distance_covariance_sqr(np.matmul(Xs, beta_sir), y)
+                DR_start = DR(
+                    Xs, y, 6, self.n_components, self.response_type, center_data, scale_data
+                )
+                beta_DR = orth(DR_start)
+                dc_DR = dc.distance_covariance_sqr(np.matmul(Xs, beta_DR), y)
+                if dc_save >= dc_sir and dc_save >= dc_DR:
+                    optimizer_start = save_start.flatten(order="F")
+                elif dc_sir >= dc_save and dc_sir >= dc_DR:
+                    optimizer_start = sir_start.flatten(order="F")
+                else:
+                    optimizer_start = DR_start.flatten(order="F")
+            ## add constraints for the optimization
+            if optimizer_constraints is None:
+                const_x = []
+                const_z = []
+                for i in range(0, self.n_components):
+                    for j in range(0, self.n_components):
+                        const_x.append(
+                            {
+                                "type": "eq",
+                                "fun": const_xscale,
+                                "args": (Xs, self.n_components, i, j),
+                            }
+                        )  # change const2 to const_func
+                        const_z.append(
+                            {
+                                "type": "eq",
+                                "fun": const_zscale,
+                                "args": (Xs, self.n_components, i, j),
+                            }
+                        )
+                if scale_data:
+                    optimizer_constraints = tuple(const_z)
+                else:
+                    optimizer_constraints = tuple(const_x)
+            if optimizer_arguments is None:
+                optimizer_arguments = (
+                    Xs,
+                    ys,
+                    self.n_components,
+                    N2,
+                    is_distance_mat,
+                    self.trimming,
+                    self.center,
+                    dmetric,
+                    biascorr,
+                )
+            # perform DCOV-SDR optimization
+            res = minimize_ipopt(
+                dcov_trim,
+                optimizer_start,
+                args=optimizer_arguments,
+                constraints=optimizer_constraints,
+                options=self.optimizer_options,
+            )
+            if scale_data:
+                dcov_res = np.matmul(
+                    N2, np.reshape(res.x, (-1, self.n_components), order="F")
+                )
+            else:
+                dcov_res = np.reshape(res.x, (-1, self.n_components), order="F")
+            if self.sudiremeth == "dcov-sdr":
+                P = dcov_res
+                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+                T = np.matmul(X0, P)
+            elif self.sudiremeth == "bcov-sdr":
+                optimizer_start = res.x
+                res_ball = minimize_ipopt(
+                    ballcov_func,
+                    optimizer_start,
+                    args=optimizer_arguments,
+                    constraints=optimizer_constraints,
+                    options=self.optimizer_options,
+                )
+                if scale_data:
+                    P = np.matmul(
+                        N2, np.reshape(res_ball.x, (-1, self.n_components), order="F")
+                    )
+                else:
+                    P = np.reshape(res_ball.x, (-1, self.n_components), order="F")
+                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+                T = np.matmul(X0, P)
+            elif self.sudiremeth == "mdd-sdr":
+                optimizer_start = res.x
+                res_mdd = minimize_ipopt(
+                    mdd_trim,
+                    optimizer_start,
+                    args=optimizer_arguments,
+                    constraints=optimizer_constraints,
+                    options=self.optimizer_options,
+                )
+                if scale_data:
+                    P = np.matmul(
+                        N2, np.reshape(res_mdd.x, (-1, self.n_components), order="F")
+                    )
+                else:
+                    P = np.reshape(res_mdd.x, (-1, self.n_components), order="F")
+                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+                T = np.matmul(X0, P)
+            else:  ## user defined function
+                optimizer_start = res.x
+                opt_res = minimize_ipopt(
+                    self.sudiremeth,
+                    optimizer_start,
+                    args=optimizer_arguments,
+                    constraints=optimizer_constraints,
+                    options=self.optimizer_options,
+                )
+                if scale_data:
+                    P = np.matmul(
+                        N2, np.reshape(opt_res.x, (-1, self.n_components), order="F")
+                    )
+                else:
+                    P = np.reshape(opt_res.x, (-1, self.n_components), order="F")
+                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+                T = np.matmul(X0, P)
+        # perform OLS regression
+        T_reg = sm.add_constant(T)  # adding a constant
+        ols_obj = sm.OLS(ys, T_reg).fit()
+
+        # Re-adjust estimates to original dimensions if data have been compressed
+        if dimensions:
+            P = np.matmul(V[:, 0:p], P)
+        setattr(self, "x_loadings_", P)
+        setattr(self, "x_scores_", T)
+        setattr(self, "proj_mat_", projMat)
+        if self.whiten_data:
+            setattr(self, "whitening_", K)
+        setattr(self, "x_loc_", mX)
+        setattr(self, "x_sca_", sX)
+        setattr(self, "y_loc_", my)
+        setattr(self, "y_sca_", sy)
+        setattr(self, "scaling_", scale)
+        setattr(self, "ols_obj_", ols_obj)
+        if (
+            self.return_scaling_object
+            and self.center != "mean"
+            and (center_data or scale_data)
+        ):
+            setattr(self, "scaling_object_", centring)
+        return self
+
+    def transform(self, Xn, distance_mat=False):
+        """
+        Computes the dimension reduction of the data Xn based on the fitted sudire model.
+
+        Parameters
+        ----------
+                Xn : matrix or data frame
+                     Input data to be transformed 
+
+                distance_mat : numpy array 
+                                 distance matrix to represent similarity between observations. 
+                
+                args or kwargs: 
+                                Further parameters to user defined sufdiremeth can be passed here  
+        Returns
+        -------
+        transformed_data : numpy array
+                             the dimension reduced data 
+
+         -------
+        """
+        Xn = convert_X_input(Xn)
+        (n, p) = Xn.shape
+        (q, h) = self.x_loadings_.shape
+        if p != q:
+            raise (
+                ValueError(
+                    "New data must have same number of columns as the ones the model has been trained with"
+                )
+            )
+        return np.matmul(Xn, self.x_loadings_)
+
+    def predict(self, Xn, is_distance_mat=False):
+        """
+        predicts the response  on new data Xn
+
+        Parameters
+        ----------
+                Xn : matrix or data frame
+                     Input data to be transformed 
+
+                is_distance_mat : bool 
+                                 if True, Xn is treated as a distance matrix 
+                
+        Returns
+        -------
+        predictions : numpy array 
+                      The predictions from the dimension reduction model
+        -------
+        """
+        Xn = convert_X_input(Xn)
+        (n, p) = Xn.shape
+        (q, h) = self.x_loadings_.shape
+        if p != q:
+            raise (
+                ValueError(
+                    "New data must have same number of columns as the ones the model has been trained with"
+                )
+            )
+        Xns = self.transform(Xn)
+        Xns = sm.add_constant(Xns, has_constant="add")  # adding a constant
+        ys = self.ols_obj_.predict(Xns)
+        return ys
+
+    @classmethod
+    def _get_param_names(cls):
+        """Get parameter names for the estimator"""
+        # fetch the constructor or the original constructor before
+        # deprecation wrapping if any
+        init = getattr(cls.__init__, "deprecated_original", cls.__init__)
+        if init is object.__init__:
+            # No explicit constructor to introspect
+            return []
+        # introspect the constructor arguments to find the model parameters
+        # to represent
+        init_signature = inspect.signature(init)
+        # Consider the constructor parameters excluding 'self'
+        parameters = [
+            p
+            for p in init_signature.parameters.values()
+            if p.name != "self" and p.kind != p.VAR_KEYWORD
+        ]
+        for p in parameters:
+            if p.kind == p.VAR_POSITIONAL:
+                raise RuntimeError(
+                    "scikit-learn estimators should always "
+                    "specify their parameters in the signature"
+                    " of their __init__ (no varargs)."
+                    " %s with constructor %s doesn't "
+                    " follow this convention." % (cls, init_signature)
+                )
+        # Extract and sort argument names excluding 'self'
+        return sorted([p.name for p in parameters])
+
+    def get_params(self, deep=False):
+        """Get parameters for this estimator.
+        Parameters
+        ----------
+        deep : boolean, optional
+            If True, will return the parameters for this estimator and
+            contained subobjects that are estimators.
+        Returns
+        -------
+        params : mapping of string to any
+            Parameter names mapped to their values.
+        ------
+        Copied from ScikitLlearn instead of imported to avoid 'deep=True'
+        """
+        out = dict()
+        for key in self._get_param_names():
+            value = getattr(self, key, None)
+            if deep and hasattr(value, "get_params"):
+                deep_items = value.get_params().items()
+                out.update((key + "__" + k, val) for k, val in deep_items)
+            out[key] = value
+        return out
+
+    def set_params(self, **params):
+        """Set the parameters of this estimator.
+        Copied from ScikitLearn, adapted to avoid calling 'deep=True'
+        
+        Returns
+        -------
+        self
+        ------
+        Copied from ScikitLlearn instead of imported to avoid 'deep=True'
+        """
+        if not params:
+            # Simple optimization to gain speed (inspect is slow)
+            return self
+        valid_params = self.get_params()
+
+        nested_params = defaultdict(dict)  # grouped by prefix
+        for key, value in params.items():
+            key, delim, sub_key = key.partition("__")
+            if key not in valid_params:
+                raise ValueError(
+                    "Invalid parameter %s for estimator %s. "
+                    "Check the list of available parameters "
+                    "with `estimator.get_params().keys()`." % (key, self)
+                )
+            if delim:
+                nested_params[key][sub_key] = value
+            else:
+                setattr(self, key, value)
+                valid_params[key] = value
+        for key, sub_params in nested_params.items():
+            valid_params[key].set_params(**sub_params)
+        return self
+
+
+def estimate_structural_dim(sudiremeth, Xn, y, B, *args, **kwargs):
+    """
+    Estimates the dimension of the central subspace using 
+    the sudiremeth.  This approach is based on the bootstrap method of Sheng and Yin (2016)
+    
+    Parameters
+    ----------
+
+        sudiremeth : str
+                    the SDR method to use in the estimation.
+
+        X :  numpy array or dataframe
+            Input X data
+
+        Y : vector or 1d matrix
+            Input Y data as 
+
+        B : int 
+            Number of bootstrap replications
+
+        kwargs:
+
+            n_slices: number of slices for SIR/SAVE/DR
+
+            center_data, bool : if the data  should be centered 
+
+            scale_data, bool :  if the data should be scaled
+
+            center, string :   which centering('mean', 'median')
+            
+    Returns
+    ----------     
+
+    h : int 
+        representing the dimension of the central subspace
+
+    ----------
+    """
+    if "n_slices" not in kwargs:
+        n_slices = 6
+    else:
+        n_slices = kwargs.pop("n_slices")
+    if "center_data" not in kwargs:
+        center_data = True
+    else:
+        center_data = kwargs.pop("center_data")
+    if "scale_data" not in kwargs:
+        scale_data = True
+    else:
+        scale_data = kwargs.pop("scale_data")
+    if "center" not in kwargs:
+        center = "mean"
+    else:
+        center = kwargs.pop("center")
+    Xn = convert_X_input(Xn)
+    y = convert_y_input(y)
+    n, p = Xn.shape
+
+    diff_b = []
+    mean_diff = []
+    for k in range(1, p + 1):
+        print("possible dim", k)
+        sdr = sudire(
+            sudiremeth,
+            center_data=center_data,
+            scale_data=scale_data,
+            center=center,
+            n_slices=n_slices,
+            n_components=k,
+        )
+        sdr.fit(Xn, y=y)
+        projMat = sdr.proj_mat_
+
+        for b in range(B):
+            idx = np.random.randint(0, n, n)
+            X_b = Xn[idx, :].copy()
+            sdr_b = sudire(
+                sudiremeth,
+                center_data=center_data,
+                scale_data=scale_data,
+                center=center,
+                n_slices=n_slices,
+                n_components=k,
+            )
+            sdr_b.fit(X_b, y=y[idx])
+            projMat_b = sdr_b.proj_mat_
+            uh, sh, vh = np.linalg.svd(projMat - projMat_b)
+            diff_b.append(np.nanmax(sh))
+        mean_diff.append(np.mean(diff_b))
+    return (np.argmin(mean_diff) + 1, mean_diff)
-- 
2.43.0


From 7c3ec1ae920c043d256e87fcaada04c2bab34784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:29 +0000
Subject: [PATCH 72/72] fix: robust regressions do not stop early when the
 coefficients happen to have squared norm 1e-5

---
 src/direpack/sprm/rm.py   | 2 +-
 src/direpack/sprm/sprm.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/sprm/rm.py b/src/direpack/sprm/rm.py
index 00d89da..0e8a730 100644
--- a/src/direpack/sprm/rm.py
+++ b/src/direpack/sprm/rm.py
@@ -174,7 +174,7 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
         Xw = np.multiply(Xs, WEmat).astype("float64")
         yw = ys * np.sqrt(we)
         loops = 1
-        rold = 1e-5
+        rold = 1e-200  # below any squared norm, whatever the units
         difference = 1
 
         while (difference > self.tol) & (loops < self.maxit):
diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index b2eda5c..ba88f7b 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -320,7 +320,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         yw = ys * np.sqrt(we)
         scalingt = copy.deepcopy(scaling)
         loops = 1
-        rold = 1e-5
+        rold = 1e-200  # below any squared norm, whatever the units
         difference = 1
         # Begin at iteration
         res_snipls = snipls(
-- 
2.43.0

