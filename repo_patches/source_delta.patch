From 203531b9d552b4bc8ff54b15bc36f8e5a1e60b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:56 +0000
Subject: [PATCH 01/18] fix: Fourier grids always have exactly n points

np.arange(a, b, dx) with a non-integer step can return n + 1 points (the
last one being b itself), e.g. n=112, a=-9.9, b=7.3, so x no longer matched
kx and the right endpoint was included.
---
 rkstiff/grids.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rkstiff/grids.py b/rkstiff/grids.py
index bdeb596..bc59405 100644
--- a/rkstiff/grids.py
+++ b/rkstiff/grids.py
@@ -80,7 +80,7 @@ def construct_x_kx_rfft(n: int, a: float = 0.0, b: float = 2 * np.pi) -> Tuple[n
         raise ValueError("n must be an even integer greater than 2.")
 
     dx = (b - a) / n
-    x = np.arange(a, b, dx)
+    x = a + dx * np.arange(n)  # np.arange(a, b, dx) may yield n + 1 points through rounding
     kx = 2 * np.pi * np.fft.rfftfreq(n, d=dx)
     return x, kx
 
@@ -126,7 +126,7 @@ def construct_x_kx_fft(n: int, a: float = 0.0, b: float = 2 * np.pi) -> Tuple[np
         raise ValueError("n must be an even integer greater than 2.")
 
     dx = (b - a) / n
-    x = np.arange(a, b, dx)
+    x = a + dx * np.arange(n)  # np.arange(a, b, dx) may yield n + 1 points through rounding
     kx = 2 * np.pi * np.fft.fftfreq(n, d=dx)
     return x, kx
 
-- 
2.43.0


From 407c895936d2146aa5bca8caa0c9c2f8c0f9afd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:46 +0000
Subject: [PATCH 02/18] fix: constant-step evolve takes the right number of
 steps despite rounding

Accumulating tc += h let rounding add a whole extra step past tf (t0=0,
tf=1, h=0.1 ended at t=1.1), and made h == tf - t0 up to rounding raise
ValueError (t0=0.1, tf=0.3, h=0.2).
---
 rkstiff/solvercs.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rkstiff/solvercs.py b/rkstiff/solvercs.py
index 160007d..2e0f0d5 100644
--- a/rkstiff/solvercs.py
+++ b/rkstiff/solvercs.py
@@ -248,17 +248,20 @@ class BaseSolverCS(BaseSolver):
             self.t.append(t0)
             self.u.append(u)
 
+        # Rounding in t0 + k*h and tf must neither add a step nor forbid one
+        roundoff = min(8 * np.finfo(float).eps * max(abs(t0), abs(tf)), 0.5 * h)
+
         # Ensure step size is valid
-        if self.__tc + h > self.__tf:
+        if self.__tc + h > self.__tf + roundoff:
             raise ValueError("Step size h must be <= (tf - t0); reduce h or extend tf.")
 
         self.logger.debug("Step size h=%s, store_freq=%s", h, store_freq)
 
         step_count = 0
-        while self.__tc < self.__tf:
+        while self.__tf - self.__tc > roundoff:
             u = self.step(u, h)
-            self.__tc += h
             step_count += 1
+            self.__tc = t0 + step_count * h
 
             if step_count % 100 == 0:
                 self.logger.info(
-- 
2.43.0


From 66998ecafae3ab4ae658ba85548307bcc03b4e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:51 +0000
Subject: [PATCH 03/18] fix: evolve ending at tf = 0 no longer divides by zero

The progress message logged every 100 steps computed 100*t/tf, so a run to
tf = 0 (from negative t0) raised ZeroDivisionError after 100 steps; the
percentage was also wrong for any t0 != 0.
---
 rkstiff/solveras.py | 2 +-
 rkstiff/solvercs.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index 25062ef..0fa7d87 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -631,7 +631,7 @@ class BaseSolverAS(BaseSolver):
                     "Progress: t=%.6f/%.6f (%.1f%%), steps=%d",
                     self.__tc,
                     self.__tf,
-                    100 * self.__tc / self.__tf,
+                    100 * (self.__tc - t0) / (self.__tf - t0),
                     step_count,
                 )
 
diff --git a/rkstiff/solvercs.py b/rkstiff/solvercs.py
index 2e0f0d5..c5c7aef 100644
--- a/rkstiff/solvercs.py
+++ b/rkstiff/solvercs.py
@@ -268,7 +268,7 @@ class BaseSolverCS(BaseSolver):
                     "Progress: t=%.6f/%.6f (%.1f%%), steps=%d",
                     self.__tc,
                     self.__tf,
-                    100 * self.__tc / self.__tf,
+                    100 * (self.__tc - t0) / (self.__tf - t0),
                     step_count,
                 )
 
-- 
2.43.0


From 34954e8715759639cb684a5a431d3394960f392d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:51 +0000
Subject: [PATCH 04/18] fix: adaptive solvers accept a step whose error
 estimate is zero

A zero error estimate (N(u) = 0 or constant, a zero state, or a final
remainder step of a few ulps) gave s = inf or nan, which was treated as a
failure: the step was rejected until MinimumStepReached was raised. Accept
such a step with the largest growth factor; NaN and inf states are still
rejected, and so is h = 0.
---
 rkstiff/solveras.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index 0fa7d87..a2be0a0 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -387,8 +387,8 @@ class BaseSolverAS(BaseSolver):
             s = self._compute_s(unew, err)
             self.logger.debug("Computed s=%s for h=%s", s, h)
 
-            # If s is less than 1, inf, or nan, reject step and reduce step size
-            if np.isinf(s) or np.isnan(s) or s < 1.0:
+            # If s is less than 1, inf, or nan (or h is too small to advance), reject step and reduce step size
+            if np.isinf(s) or np.isnan(s) or s < 1.0 or h == 0.0:
                 h = self._reject_step_size(s, h)
             # If s is bigger than 1 accept h and the step
             else:
@@ -449,9 +449,14 @@ class BaseSolverAS(BaseSolver):
         """
         # Use adapt_cutoff to ignore small modes/values in the computation of the step size
         magu = np.abs(u)
-        idx = magu / magu.max() > self.config.adapt_cutoff
+        maxu = magu.max()
+        idx = magu / maxu > self.config.adapt_cutoff if maxu > 0 else magu == 0
         tol = self.config.epsilon * np.linalg.norm(u[idx])
-        s = self.config.safety_f * np.power(tol / np.linalg.norm(err[idx]), 1.0 / self._q())
+        err_norm = np.linalg.norm(err[idx])
+        # No measurable error (tol / err_norm overflows or is 0 / 0): the step is as good as it gets
+        if idx.any() and np.isfinite(tol) and err_norm <= tol * np.finfo(float).tiny:
+            return self.MAX_S
+        s = self.config.safety_f * np.power(tol / err_norm, 1.0 / self._q())
         return s
 
     def _reject_step_size(self, s: float, h: float) -> float:
-- 
2.43.0


From d08507553e2f5c00a26569cf2742902ac2acbc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:55 +0000
Subject: [PATCH 05/18] fix: IF45DP error estimate uses the Dormand-Prince
 weight 71/1920

The fourth embedded error weight was 17/1920, so the weights did not sum
to zero: the estimate was O(h) instead of O(h^5) and the solver took
orders of magnitude too many steps.
---
 rkstiff/if45dp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rkstiff/if45dp.py b/rkstiff/if45dp.py
index 0750437..18500f8 100644
--- a/rkstiff/if45dp.py
+++ b/rkstiff/if45dp.py
@@ -231,7 +231,7 @@ class IF45DP(BaseSolverAS):
         self._a76 = 11 * h / 84.0
         self._r1 = h * 71 * self._EL / 57600.0
         self._r3 = -71 * h * EL710 / 16695.0
-        self._r4 = 17 * h * self._EL15 / 1920.0
+        self._r4 = 71 * h * self._EL15 / 1920.0
         self._r5 = -17253 * h * EL19 / 339200.0
         self._r6 = 22 * h / 525.0
         self._r7 = -h / 40.0
-- 
2.43.0


From 8a24dc6fe831eb6678deb5a5e13dd9d104a8a2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:00 +0000
Subject: [PATCH 06/18] fix: diagonalized solvers return the error estimate in
 the original basis

With diagonalize=True the new state was mapped back to physical space but
the error estimate was left in the eigenvector basis, so the two vectors
compared by the step-size controller lived in different bases.
---
 rkstiff/etd34.py | 2 +-
 rkstiff/etd35.py | 2 +-
 rkstiff/if34.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rkstiff/etd34.py b/rkstiff/etd34.py
index 4a25323..c918789 100644
--- a/rkstiff/etd34.py
+++ b/rkstiff/etd34.py
@@ -301,7 +301,7 @@ class _Etd34Diagonalized(_Etd34Diagonal):
         )
         self._NL5 = self._Sinv.dot(self.nl_func(self._S.dot(self._k)))
         self._err = self._a54 * (self._NL4 - self._NL5)
-        return self._S.dot(self._k), self._err
+        return self._S.dot(self._k), self._S.dot(self._err)
 
 
 class _Etd34NonDiagonal:
diff --git a/rkstiff/etd35.py b/rkstiff/etd35.py
index d821272..51608db 100644
--- a/rkstiff/etd35.py
+++ b/rkstiff/etd35.py
@@ -492,7 +492,7 @@ class _Etd35Diagonalized(_Etd35Diagonal):
             + self._a76 * self._NL6
         )
         self._err = self._a75 * (-self._NL1 + 4 * self._NL3 - 6 * self._NL4 + 4 * self._NL5 - self._NL6)
-        return self._S.dot(self._k), self._err
+        return self._S.dot(self._k), self._S.dot(self._err)
 
 
 class _Etd35NonDiagonal:
diff --git a/rkstiff/if34.py b/rkstiff/if34.py
index 535dbbe..566942a 100644
--- a/rkstiff/if34.py
+++ b/rkstiff/if34.py
@@ -193,7 +193,7 @@ class _If34Diagonalized(_If34Diagonal):
         )
         self._NL5 = self._Sinv.dot(self.nl_func(self._S.dot(self._k)))
         self._err = h * (self._NL4 - self._NL5) / 6.0
-        return self._S.dot(self._k), self._err
+        return self._S.dot(self._k), self._S.dot(self._err)
 
 
 # ======================================================================
-- 
2.43.0


From e18ebcf380af75202c9e7e6310087d0d9ee7e752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:59 +0000
Subject: [PATCH 07/18] fix: solvers built without a config no longer share one

SolverConfig() and ETDConfig() were evaluated once as default arguments, so
changing solver.config on one default-constructed solver silently changed
every other one. Each solver now gets its own default configuration.
---
 rkstiff/etd.py      | 12 ++++++------
 rkstiff/etd34.py    | 12 ++++++------
 rkstiff/etd35.py    | 12 ++++++------
 rkstiff/etd4.py     |  4 ++--
 rkstiff/etd5.py     | 10 +++++-----
 rkstiff/if34.py     |  4 ++--
 rkstiff/if45dp.py   |  4 ++--
 rkstiff/solveras.py |  3 ++-
 8 files changed, 31 insertions(+), 30 deletions(-)

diff --git a/rkstiff/etd.py b/rkstiff/etd.py
index 584a02e..c220b64 100644
--- a/rkstiff/etd.py
+++ b/rkstiff/etd.py
@@ -37,7 +37,7 @@ ETD methods are particularly efficient when
 :math:`\mathcal{N}(\mathbf{U})` evolves on a slower time scale than the linear component :math:`\mathcal{L}\mathbf{U}`.
 """
 
-from typing import Union, Literal, Callable
+from typing import Union, Literal, Callable, Optional
 import numpy as np
 from .solvercs import BaseSolverCS
 from .solveras import SolverConfig, BaseSolverAS
@@ -217,12 +217,12 @@ class ETDAS(BaseSolverAS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
-        etd_config: ETDConfig = ETDConfig(),
+        config: Optional[SolverConfig] = None,
+        etd_config: Optional[ETDConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         super().__init__(lin_op, nl_func, config, loglevel=loglevel)
-        self.etd_config: ETDConfig = etd_config
+        self.etd_config: ETDConfig = ETDConfig() if etd_config is None else etd_config
         self._h_coeff = None
 
 
@@ -270,9 +270,9 @@ class ETDCS(BaseSolverCS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        etd_config: ETDConfig = ETDConfig(),
+        etd_config: Optional[ETDConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         super().__init__(lin_op, nl_func, loglevel=loglevel)
-        self.etd_config: ETDConfig = etd_config
+        self.etd_config: ETDConfig = ETDConfig() if etd_config is None else etd_config
         self._h_coeff = None
diff --git a/rkstiff/etd34.py b/rkstiff/etd34.py
index c918789..8ef4f75 100644
--- a/rkstiff/etd34.py
+++ b/rkstiff/etd34.py
@@ -17,7 +17,7 @@ third-order error estimation for adaptive step control.
 """
 
 import logging
-from typing import Callable, Union, Literal
+from typing import Callable, Union, Literal, Optional
 import numpy as np
 from scipy.linalg import expm
 from .etd import ETDAS, ETDConfig, psi1, psi2, psi3, SolverConfig
@@ -509,8 +509,8 @@ class ETD34(ETDAS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
-        etd_config: ETDConfig = ETDConfig(),
+        config: Optional[SolverConfig] = None,
+        etd_config: Optional[ETDConfig] = None,
         diagonalize: bool = False,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ):
@@ -545,12 +545,12 @@ class ETD34(ETDAS):
         """
         super().__init__(lin_op, nl_func, config=config, etd_config=etd_config, loglevel=loglevel)
         if self._diag:
-            self._method = _Etd34Diagonal(lin_op, nl_func, etd_config, self.logger)
+            self._method = _Etd34Diagonal(lin_op, nl_func, self.etd_config, self.logger)
         else:
             if diagonalize:
-                self._method = _Etd34Diagonalized(lin_op, nl_func, etd_config, self.logger)
+                self._method = _Etd34Diagonalized(lin_op, nl_func, self.etd_config, self.logger)
             else:
-                self._method = _Etd34NonDiagonal(lin_op, nl_func, etd_config)
+                self._method = _Etd34NonDiagonal(lin_op, nl_func, self.etd_config)
         self.__n1_init = False
         self._accept = False
 
diff --git a/rkstiff/etd35.py b/rkstiff/etd35.py
index 51608db..8cf443c 100644
--- a/rkstiff/etd35.py
+++ b/rkstiff/etd35.py
@@ -61,7 +61,7 @@ local error estimates derived from the third-order embedding.
 """
 
 import logging
-from typing import Callable, Union, Literal
+from typing import Callable, Union, Literal, Optional
 import numpy as np
 from scipy.linalg import expm
 from .etd import ETDAS, ETDConfig, psi1, psi2, psi3, SolverConfig
@@ -785,8 +785,8 @@ class ETD35(ETDAS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
-        etd_config: ETDConfig = ETDConfig(),
+        config: Optional[SolverConfig] = None,
+        etd_config: Optional[ETDConfig] = None,
         diagonalize: bool = False,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ):
@@ -820,12 +820,12 @@ class ETD35(ETDAS):
             loglevel=loglevel,
         )
         if self._diag:
-            self._method = _Etd35Diagonal(lin_op, nl_func, etd_config, self.logger)
+            self._method = _Etd35Diagonal(lin_op, nl_func, self.etd_config, self.logger)
         else:
             if diagonalize:
-                self._method = _Etd35Diagonalized(lin_op, nl_func, etd_config, self.logger)
+                self._method = _Etd35Diagonalized(lin_op, nl_func, self.etd_config, self.logger)
             else:
-                self._method = _Etd35NonDiagonal(lin_op, nl_func, etd_config)
+                self._method = _Etd35NonDiagonal(lin_op, nl_func, self.etd_config)
         self._stages_init = False
         self._accept = False
 
diff --git a/rkstiff/etd4.py b/rkstiff/etd4.py
index a49b6e3..2d3a822 100644
--- a/rkstiff/etd4.py
+++ b/rkstiff/etd4.py
@@ -25,7 +25,7 @@ Journal of Computational Physics, 203(1), 72–88.
 """
 
 import logging
-from typing import Callable, Union, Literal
+from typing import Callable, Union, Literal, Optional
 import numpy as np
 from scipy.linalg import expm
 from .etd import ETDCS, ETDConfig, psi1, psi2, psi3
@@ -346,7 +346,7 @@ class ETD4(ETDCS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        etd_config: ETDConfig = ETDConfig(),
+        etd_config: Optional[ETDConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         r"""
diff --git a/rkstiff/etd5.py b/rkstiff/etd5.py
index 3255557..de5f2f5 100644
--- a/rkstiff/etd5.py
+++ b/rkstiff/etd5.py
@@ -28,7 +28,7 @@ Whalen, P., Brio, M., & Moloney, J.V. (2015).
 Journal of Computational Physics, 280, 579–601.
 """
 
-from typing import Callable, Union, Literal
+from typing import Callable, Union, Literal, Optional
 import numpy as np
 from scipy.linalg import expm
 from .etd import ETDCS, ETDConfig, psi1, psi2, psi3
@@ -83,12 +83,12 @@ class _Etd5Diagonal:  # pylint: disable=too-few-public-methods
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        etd_config: ETDConfig = ETDConfig(),
+        etd_config: Optional[ETDConfig] = None,
     ) -> None:
         """Initialize ETD5 diagonal system strategy."""
         self.lin_op = lin_op.astype(np.complex128, copy=False)
         self.nl_func = nl_func
-        self.etd_config = etd_config
+        self.etd_config = ETDConfig() if etd_config is None else etd_config
         n = lin_op.shape[0]
         self._EL14, self._EL12, self._EL34, self._EL = [np.zeros(n, dtype=np.complex128) for _ in range(4)]
         (
@@ -536,7 +536,7 @@ class ETD5(ETDCS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        etd_config: ETDConfig = ETDConfig(),
+        etd_config: Optional[ETDConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         """
@@ -555,7 +555,7 @@ class ETD5(ETDCS):
             Supports both real and complex values.
         nl_func : Callable[[np.ndarray], np.ndarray]
             Nonlinear function that maps the solution vector to its nonlinear contribution.
-        etd_config : ETDConfig, default=ETDConfig()
+        etd_config : ETDConfig, optional
             Configuration object containing modecutoff, contour_points, contour_radius.
         loglevel : Union[str, int], default="WARNING"
             Logging level.
diff --git a/rkstiff/if34.py b/rkstiff/if34.py
index 566942a..7cad2f9 100644
--- a/rkstiff/if34.py
+++ b/rkstiff/if34.py
@@ -39,7 +39,7 @@ J. Comput. Phys. **280**, 579-601 (2015).
 """
 
 import logging
-from typing import Callable, Union, Literal
+from typing import Callable, Union, Literal, Optional
 import numpy as np
 from scipy.linalg import expm
 from .solveras import SolverConfig, BaseSolverAS
@@ -290,7 +290,7 @@ class IF34(BaseSolverAS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
+        config: Optional[SolverConfig] = None,
         diagonalize: bool = False,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
diff --git a/rkstiff/if45dp.py b/rkstiff/if45dp.py
index 18500f8..cce3d36 100644
--- a/rkstiff/if45dp.py
+++ b/rkstiff/if45dp.py
@@ -1,6 +1,6 @@
 """Integrating factor adaptive step solver of 5th order with 4rd order embedding."""
 
-from typing import Callable, Literal, Union
+from typing import Callable, Literal, Union, Optional
 import numpy as np
 from .solveras import SolverConfig, BaseSolverAS
 
@@ -48,7 +48,7 @@ class IF45DP(BaseSolverAS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
+        config: Optional[SolverConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         """
diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index a2be0a0..3ff9c3b 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -263,11 +263,12 @@ class BaseSolverAS(BaseSolver):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
+        config: Optional[SolverConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         """Initialize an adaptive-step solver with validated configuration."""
         super().__init__(lin_op, nl_func, loglevel)
+        config = SolverConfig() if config is None else config
         self.config = config
 
         self.logger.debug(
-- 
2.43.0


From 09f81cc2c2f76fdbe3a666c6f4d28a88bc2b8829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:04 +0000
Subject: [PATCH 08/18] fix: configuration setters reject NaN

Comparisons such as value <= 0 are False for NaN, so a NaN setting passed
every validation and only surfaced as a failed integration.
---
 rkstiff/etd.py      |  4 ++--
 rkstiff/solveras.py | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/rkstiff/etd.py b/rkstiff/etd.py
index c220b64..d11b578 100644
--- a/rkstiff/etd.py
+++ b/rkstiff/etd.py
@@ -96,7 +96,7 @@ class ETDConfig:
 
     @modecutoff.setter
     def modecutoff(self, value: float) -> None:
-        if (value > 1.0) or (value <= 0):
+        if not 0 < value <= 1.0:
             raise ValueError(f"modecutoff must be between 0.0 and 1.0 but is {value}")
         self._modecutoff = value
 
@@ -126,7 +126,7 @@ class ETDConfig:
 
     @contour_radius.setter
     def contour_radius(self, value: float) -> None:
-        if value <= 0:
+        if not value > 0:
             raise ValueError(f"contour_radius must greater than 0 but is {value}")
         self._contour_radius = value
 
diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index 3ff9c3b..a6c973a 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -104,7 +104,7 @@ class SolverConfig:
     @epsilon.setter
     def epsilon(self, value: float) -> None:
         """Set relative error tolerance, must be positive."""
-        if value <= 0:
+        if not value > 0:
             raise ValueError(f"epsilon must be positive but is {value}")
         self._epsilon = float(value)
 
@@ -116,7 +116,7 @@ class SolverConfig:
     @incr_f.setter
     def incr_f(self, value: float) -> None:
         """Set increment factor, must be greater than 1.0."""
-        if value <= 1.0:
+        if not value > 1.0:
             raise ValueError(f"incr_f must be > 1.0 but is {value}")
         self._incr_f = float(value)
 
@@ -128,7 +128,7 @@ class SolverConfig:
     @decr_f.setter
     def decr_f(self, value: float) -> None:
         """Set decrement factor, must be less than 1.0."""
-        if value >= 1.0:
+        if not value < 1.0:
             raise ValueError(f"decr_f must be < 1.0 but is {value}")
         self._decr_f = float(value)
 
@@ -140,7 +140,7 @@ class SolverConfig:
     @safety_f.setter
     def safety_f(self, value: float) -> None:
         """Set safety factor, must be ≤ 1.0."""
-        if value > 1.0:
+        if not value <= 1.0:
             raise ValueError(f"safety_f must be <= 1.0 but is {value}")
         self._safety_f = float(value)
 
@@ -152,7 +152,7 @@ class SolverConfig:
     @adapt_cutoff.setter
     def adapt_cutoff(self, value: float) -> None:
         """Set adaptivity cutoff, must be less than 1.0."""
-        if value >= 1.0:
+        if not value < 1.0:
             raise ValueError(f"adapt_cutoff must be < 1.0 but is {value}")
         self._adapt_cutoff = float(value)
 
@@ -164,7 +164,7 @@ class SolverConfig:
     @minh.setter
     def minh(self, value: float) -> None:
         """Set minimum step size, must be positive."""
-        if value <= 0:
+        if not value > 0:
             raise ValueError(f"minh must be positive but is {value}")
         self._minh = float(value)
 
-- 
2.43.0


From 75a622a7aeb8ebf2565bc25873ede8840d5aa2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 09/18] fix: an interrupted coefficient update is redone, not
 taken for complete

The step size was recorded before its coefficients were computed, so when
that computation raised (e.g. FloatingPointError, KeyboardInterrupt) the
next step with the same h silently used zero or half-updated coefficients.
---
 rkstiff/etd34.py  | 3 ++-
 rkstiff/etd35.py  | 3 ++-
 rkstiff/etd4.py   | 3 ++-
 rkstiff/etd5.py   | 3 ++-
 rkstiff/if34.py   | 3 ++-
 rkstiff/if4.py    | 3 ++-
 rkstiff/if45dp.py | 3 ++-
 7 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/rkstiff/etd34.py b/rkstiff/etd34.py
index 8ef4f75..c977508 100644
--- a/rkstiff/etd34.py
+++ b/rkstiff/etd34.py
@@ -582,8 +582,9 @@ class ETD34(ETDAS):
         """
         if h == self._h_coeff:
             return
-        self._h_coeff = h
+        self._h_coeff = None  # not valid again until all coefficients are
         self._method.update_coeffs(h)
+        self._h_coeff = h
         self.logger.debug("ETD34 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> tuple[np.ndarray, np.ndarray]:
diff --git a/rkstiff/etd35.py b/rkstiff/etd35.py
index 8cf443c..e3f76d5 100644
--- a/rkstiff/etd35.py
+++ b/rkstiff/etd35.py
@@ -850,8 +850,9 @@ class ETD35(ETDAS):
         """
         if h == self._h_coeff:
             return
-        self._h_coeff = h
+        self._h_coeff = None  # not valid again until all coefficients are
         self._method.update_coeffs(h)
+        self._h_coeff = h
         self.logger.debug("ETD35 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> tuple[np.ndarray, np.ndarray]:
diff --git a/rkstiff/etd4.py b/rkstiff/etd4.py
index 2d3a822..ab21fb7 100644
--- a/rkstiff/etd4.py
+++ b/rkstiff/etd4.py
@@ -395,8 +395,9 @@ class ETD4(ETDCS):
         """
         if h == self._h_coeff:
             return
-        self._h_coeff = h
+        self._h_coeff = None  # not valid again until all coefficients are
         self._method.update_coeffs(h)
+        self._h_coeff = h
         self.logger.debug("ETD4 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> np.ndarray:
diff --git a/rkstiff/etd5.py b/rkstiff/etd5.py
index de5f2f5..23bc519 100644
--- a/rkstiff/etd5.py
+++ b/rkstiff/etd5.py
@@ -615,8 +615,9 @@ class ETD5(ETDCS):
         """
         if h == self._h_coeff:
             return
-        self._h_coeff = h
+        self._h_coeff = None  # not valid again until all coefficients are
         self._method.update_coeffs(h)
+        self._h_coeff = h
         self.logger.debug("ETD5 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> np.ndarray:
diff --git a/rkstiff/if34.py b/rkstiff/if34.py
index 7cad2f9..1ef7559 100644
--- a/rkstiff/if34.py
+++ b/rkstiff/if34.py
@@ -314,8 +314,9 @@ class IF34(BaseSolverAS):
     def _update_coeffs(self, h: float) -> None:
         """Recompute coefficients if step size changed."""
         if h != self._h_coeff:
-            self._h_coeff = h
+            self._h_coeff = None  # not valid again until all coefficients are
             self._method.update_coeffs(h)
+            self._h_coeff = h
             self.logger.debug("IF34 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> tuple[np.ndarray, np.ndarray]:
diff --git a/rkstiff/if4.py b/rkstiff/if4.py
index 56d86e4..db6e935 100644
--- a/rkstiff/if4.py
+++ b/rkstiff/if4.py
@@ -262,8 +262,9 @@ class IF4(BaseSolverCS):
         """Update exponential coefficients if step size :math:`h` changes."""
         if h == self._h_coeff:
             return
-        self._h_coeff = h
+        self._h_coeff = None  # not valid again until all coefficients are
         self._method.update_coeffs(h)
+        self._h_coeff = h
         self.logger.debug("IF4 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> np.ndarray:
diff --git a/rkstiff/if45dp.py b/rkstiff/if45dp.py
index cce3d36..d6ec59f 100644
--- a/rkstiff/if45dp.py
+++ b/rkstiff/if45dp.py
@@ -200,7 +200,7 @@ class IF45DP(BaseSolverAS):
         """
         if h == self._h_coeff:
             return
-        self._h_coeff = h
+        self._h_coeff = None  # not valid again until all coefficients are
         z = h * self.lin_op
         self._EL15 = np.exp(z / 5)
         self._EL310 = np.exp(3 * z / 10)
@@ -235,6 +235,7 @@ class IF45DP(BaseSolverAS):
         self._r5 = -17253 * h * EL19 / 339200.0
         self._r6 = 22 * h / 525.0
         self._r7 = -h / 40.0
+        self._h_coeff = h
         self.logger.debug("IF45 coefficients updated for step size h=%s", h)
 
     def _q(self) -> int:
-- 
2.43.0


From 18bb18deb78654f65226c12806a1019d5c53eafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:44 +0000
Subject: [PATCH 10/18] fix: adaptive evolve raises instead of looping forever
 when a step cannot advance the time

---
 rkstiff/solveras.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index a6c973a..2cf0648 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -629,6 +629,8 @@ class BaseSolverAS(BaseSolver):
         step_count = 0
         while self.__tc < self.__tf:
             u, h, h_suggest = self.step(u, h)
+            if self.__tc + h == self.__tc:
+                raise self.MinimumStepReached("Solver failed: step size too small to advance the time")
             self.__tc += h
             step_count += 1
 
-- 
2.43.0


From 429e53e1cf7e5a993332805e6e4914fb8c64c04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:05 +0000
Subject: [PATCH 11/18] fix: a candidate state with infinite entries is never
 accepted

---
 rkstiff/solveras.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index 2cf0648..4fbf9ea 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -451,6 +451,8 @@ class BaseSolverAS(BaseSolver):
         # Use adapt_cutoff to ignore small modes/values in the computation of the step size
         magu = np.abs(u)
         maxu = magu.max()
+        if not np.isfinite(maxu):
+            return np.nan
         idx = magu / maxu > self.config.adapt_cutoff if maxu > 0 else magu == 0
         tol = self.config.epsilon * np.linalg.norm(u[idx])
         err_norm = np.linalg.norm(err[idx])
-- 
2.43.0


From 681a12b68d1089db10a70150a39d2b76f3254cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:58 +0000
Subject: [PATCH 12/18] fix: mirror_grid mirrors matrices along the last and
 vectors along the first axis

---
 rkstiff/grids.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/rkstiff/grids.py b/rkstiff/grids.py
index bc59405..7b38f09 100644
--- a/rkstiff/grids.py
+++ b/rkstiff/grids.py
@@ -279,7 +279,7 @@ def mirror_grid(
     axis : int, optional
         Axis along which to mirror ``u``. Default is ``-1``.
 
-        * ``-1`` — Stack horizontally (for 1D)
+        * ``-1`` — Stack along the last axis
         * ``0`` — Stack vertically (rows)
         * ``1`` — Stack horizontally (columns)
 
@@ -309,13 +309,8 @@ def mirror_grid(
     if u is None:
         return rnew, None
 
-    if axis == -1:
-        unew = np.hstack([np.flipud(u), u])
-    elif axis == 0:
-        unew = np.vstack([np.flipud(u), u])
-    elif axis == 1:
-        unew = np.hstack([np.fliplr(u), u])
-    else:
+    if axis not in (-1, 0, 1):
         raise ValueError("axis must be -1, 0, or 1.")
+    unew = np.concatenate([np.flip(u, axis=axis), u], axis=axis)
 
     return rnew, unew
-- 
2.43.0


From 631e58137847884e79e1b88d3f1b31ce1dea87be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:21 +0000
Subject: [PATCH 13/18] fix: evaluate diagonalized ETD34/ETD35 in double
 precision for single-precision operators

---
 rkstiff/etd34.py | 2 +-
 rkstiff/etd35.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rkstiff/etd34.py b/rkstiff/etd34.py
index c977508..6622d41 100644
--- a/rkstiff/etd34.py
+++ b/rkstiff/etd34.py
@@ -241,7 +241,7 @@ class _Etd34Diagonalized(_Etd34Diagonal):
             self.logger.warning(
                 f"Linear matrix array has a large condition number of {lin_op_cond:.2f}, method may be unstable"
             )
-        self._eig_vals, self._S = np.linalg.eig(lin_op)
+        self._eig_vals, self._S = np.linalg.eig(lin_op.astype(np.result_type(lin_op, np.float64), copy=False))
         self._Sinv = np.linalg.inv(self._S)
         self._v = np.zeros(lin_op.shape[0])
 
diff --git a/rkstiff/etd35.py b/rkstiff/etd35.py
index e3f76d5..c8dee25 100644
--- a/rkstiff/etd35.py
+++ b/rkstiff/etd35.py
@@ -416,7 +416,7 @@ class _Etd35Diagonalized(_Etd35Diagonal):
             self.logger.warning(
                 f"Linear matrix array has a large condition number of {lin_op_cond:.2f}, method may be unstable"
             )
-        self._eig_vals, self._S = np.linalg.eig(lin_op)
+        self._eig_vals, self._S = np.linalg.eig(lin_op.astype(np.result_type(lin_op, np.float64), copy=False))
         self._Sinv = np.linalg.inv(self._S)
         self._v = np.zeros(lin_op.shape[0])
 
-- 
2.43.0


From d56fedf68bb13736dd3ac0ab5e62b86818affb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:09 +0000
Subject: [PATCH 14/18] fix: step-size control no longer overflows for states
 above 1e154

---
 rkstiff/solveras.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index 4fbf9ea..804c36d 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -454,8 +454,10 @@ class BaseSolverAS(BaseSolver):
         if not np.isfinite(maxu):
             return np.nan
         idx = magu / maxu > self.config.adapt_cutoff if maxu > 0 else magu == 0
-        tol = self.config.epsilon * np.linalg.norm(u[idx])
-        err_norm = np.linalg.norm(err[idx])
+        # keep the squares of very large entries from overflowing
+        scale = max(maxu, 1.0)
+        tol = self.config.epsilon * np.linalg.norm(magu[idx] / scale)
+        err_norm = np.linalg.norm(np.abs(err[idx]) / scale)
         # No measurable error (tol / err_norm overflows or is 0 / 0): the step is as good as it gets
         if idx.any() and np.isfinite(tol) and err_norm <= tol * np.finfo(float).tiny:
             return self.MAX_S
-- 
2.43.0


From 0faf180b1384d96b9fcc33db0971fe3e141e49bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:46 +0000
Subject: [PATCH 15/18] fix: adaptive evolve no longer writes into a start time
 given as a 0-d array

---
 rkstiff/solveras.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index 804c36d..0f10080 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -635,7 +635,7 @@ class BaseSolverAS(BaseSolver):
             u, h, h_suggest = self.step(u, h)
             if self.__tc + h == self.__tc:
                 raise self.MinimumStepReached("Solver failed: step size too small to advance the time")
-            self.__tc += h
+            self.__tc = self.__tc + h
             step_count += 1
 
             if step_count % 100 == 0:
-- 
2.43.0


From b0ff84e00e51181ee617fee24f5eb4c8e34150f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:50 +0000
Subject: [PATCH 16/18] fix: report the reduced step size, not the old one,
 after a non-finite attempt

---
 rkstiff/solveras.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index 0f10080..1250282 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -502,7 +502,7 @@ class BaseSolverAS(BaseSolver):
         self._accept = False
         # Check that s is a number
         if np.isinf(s) or np.isnan(s):
-            msg = "inf or nan number encountered: reducing step size to %s" % h
+            msg = "inf or nan number encountered: reducing step size to %s" % (self.MIN_S * h)
             self.logger.warning(msg)
             return self.MIN_S * h
 
-- 
2.43.0


From f117c7d0fe2933a8cdedde6ef32d301b93b04541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:00 +0000
Subject: [PATCH 17/18] fix: times and step sizes of narrow types no longer
 overflow or lose precision

Step sizes and times were used in the arithmetic of the type they were given
in: int8 or uint8 values overflowed (a run from int8(-100) to int8(100)
returned the initial state, ETD5 with h=int8(20) used wrong coefficients),
and a float32 start time made all times single precision.
---
 rkstiff/solveras.py | 5 +++--
 rkstiff/solvercs.py | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index 1250282..f38982e 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -377,7 +377,7 @@ class BaseSolverAS(BaseSolver):
            Very small or divergent ``s`` values may indicate instability
            or excessively tight tolerances.
         """
-        h = h_suggest
+        h = float(h_suggest)
         assert h >= 0.0
         self.logger.debug("Starting step with h_suggest=%s", h_suggest)
 
@@ -614,6 +614,7 @@ class BaseSolverAS(BaseSolver):
         """
         self.reset()
         self.logger.info("Starting evolution from t=%s to t=%s", t0, tf)
+        t0, tf = float(t0), float(tf)  # narrow integer types would overflow
         self.__t0, self.__tf, self.__tc = t0, tf, t0
 
         if store_data:
@@ -623,7 +624,7 @@ class BaseSolverAS(BaseSolver):
         # Set initial step size if none given
         if h_init is None:
             h_init = (self.__tf - self.__t0) / 100.0
-        h = h_init
+        h = float(h_init)
         self.logger.debug("Initial step size h=%s, store_freq=%s", h, store_freq)
 
         # Make sure step size isn't larger than entire propagation time
diff --git a/rkstiff/solvercs.py b/rkstiff/solvercs.py
index c5c7aef..16691b8 100644
--- a/rkstiff/solvercs.py
+++ b/rkstiff/solvercs.py
@@ -183,7 +183,7 @@ class BaseSolverCS(BaseSolver):
         """
         assert h >= 0.0
         self.logger.debug("Executing constant step with h=%s", h)
-        return self._update_stages(u, h)
+        return self._update_stages(u, float(h))
 
     # ------------------------------------------------------------------
     # Evolution loop
@@ -242,6 +242,7 @@ class BaseSolverCS(BaseSolver):
         """
         self.reset()
         self.logger.info("Starting constant-step evolution from t=%s to t=%s", t0, tf)
+        t0, tf, h = float(t0), float(tf), float(h)  # narrow integer types would overflow
         self.__tf, self.__tc = tf, t0
 
         if store_data:
-- 
2.43.0


From f95c155fa8c80d6fed8e92cb05172faff2be3f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:51 +0000
Subject: [PATCH 18/18] fix: integrating-factor solvers no longer evaluate
 coefficients in the precision of narrow operators

---
 rkstiff/if34.py   | 5 +++--
 rkstiff/if4.py    | 4 ++--
 rkstiff/if45dp.py | 1 +
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/rkstiff/if34.py b/rkstiff/if34.py
index 1ef7559..b91d195 100644
--- a/rkstiff/if34.py
+++ b/rkstiff/if34.py
@@ -68,7 +68,7 @@ class _If34Diagonal:
         logger: logging.Logger = logging.getLogger(__name__),
     ) -> None:
         """Initialize the diagonal IF(3,4) system strategy."""
-        self.lin_op = lin_op
+        self.lin_op = lin_op.astype(np.result_type(lin_op, np.float64), copy=False)
         self.nl_func = nl_func
         self.logger = logger
 
@@ -154,6 +154,7 @@ class _If34Diagonalized(_If34Diagonal):
     ) -> None:
         """Initialize eigen-basis transformation for the linear operator."""
         super().__init__(lin_op, nl_func, logger)
+        lin_op = self.lin_op  # in double precision
         if len(lin_op.shape) == 1:
             raise ValueError("Cannot diagonalize a 1D system")
         cond = np.linalg.cond(lin_op)
@@ -213,7 +214,7 @@ class _If34NonDiagonal:
 
     def __init__(self, lin_op: np.ndarray, nl_func: Callable[[np.ndarray], np.ndarray]) -> None:
         """Initialize the general IF(3,4) solver strategy."""
-        self.lin_op = lin_op
+        self.lin_op = lin_op.astype(np.result_type(lin_op, np.float64), copy=False)
         self.nl_func = nl_func
 
         n = lin_op.shape[0]
diff --git a/rkstiff/if4.py b/rkstiff/if4.py
index db6e935..9622401 100644
--- a/rkstiff/if4.py
+++ b/rkstiff/if4.py
@@ -61,7 +61,7 @@ class _IF4Diagonal:
     """
 
     def __init__(self, lin_op, nl_func):
-        self.lin_op = lin_op
+        self.lin_op = lin_op.astype(np.result_type(lin_op, np.float64), copy=False)
         self.nl_func = nl_func
 
         n = lin_op.shape[0]
@@ -141,7 +141,7 @@ class _IF4NonDiagonal:
 
     def __init__(self, lin_op, nl_func):
         """Initialize non-diagonal IF4 strategy."""
-        self.lin_op = lin_op
+        self.lin_op = lin_op.astype(np.result_type(lin_op, np.float64), copy=False)
         self.nl_func = nl_func
 
         n = lin_op.shape[0]
diff --git a/rkstiff/if45dp.py b/rkstiff/if45dp.py
index d6ec59f..cddb830 100644
--- a/rkstiff/if45dp.py
+++ b/rkstiff/if45dp.py
@@ -68,6 +68,7 @@ class IF45DP(BaseSolverAS):
         super().__init__(lin_op, nl_func, config=config, loglevel=loglevel)
         if len(lin_op.shape) > 1:
             raise ValueError("IF45DP only handles 1D linear operators (diagonal systems): try IF34,ETD34, or ETD35")
+        self.lin_op = lin_op.astype(np.result_type(lin_op, np.float64), copy=False)
         self._EL15, self._EL310, self._EL45, self._EL89, self._EL = [
             np.zeros(shape=self.lin_op.shape, dtype=np.complex128) for _ in range(5)
         ]
-- 
2.43.0

