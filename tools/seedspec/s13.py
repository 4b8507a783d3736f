prop = 'P13'
needs = 'bounds that are inconsistent for some but not all variables'
breaks = 'a problem with partly inconsistent bounds is accepted'
edits = [('hvd/problems/base.py', 'if np.any(self.xl > self.xu):', 'if np.all(self.xl > self.xu):')]
# ---- demo
import numpy as np
from hvd.problems import ZDT1
try:
    ZDT1(n_var=3, xl=[0.0, 2.0, 0.0], xu=1.0)
except ValueError:
    raise SystemExit(0)
raise AssertionError("inconsistent bounds accepted")
