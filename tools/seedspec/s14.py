prop = 'P14'
needs = 'UF2 with a number of variables other than 30, away from the Pareto set'
breaks = 'the frequency of the envelope of UF2 does not depend on the number of variables'
edits = [('hvd/problems/uf.py', 'jnp.cos(24 * jnp.pi * x[0] + 4 * (idx + 1) * jnp.pi / self.n_var)', 'jnp.cos(24 * jnp.pi * x[0] + 4 * (idx + 1) * jnp.pi / 30)')]
# ---- demo
import numpy as np
from hvd.problems import UF2
rng = np.random.RandomState(1)
for n in (5, 30):
    p = UF2(n_var=n)
    for _ in range(5):
        x = np.r_[rng.rand(), rng.rand(n - 1) * 2 - 1]
        def y(k):
            e = 0.3 * x[0] ** 2 * np.cos(24 * np.pi * x[0] + 4 * k * np.pi / n) + 0.6 * x[0]
            t = 6 * np.pi * x[0] + k * np.pi / n
            return x[k - 1] - e * (np.cos(t) if k % 2 else np.sin(t))
        J = range(2, n + 1)
        e = [x[0] + 2 * np.mean([y(k) ** 2 for k in J if k % 2]), 1 - np.sqrt(x[0]) + 2 * np.mean([y(k) ** 2 for k in J if k % 2 == 0])]
        assert np.allclose(p.objective(x), e), (p.objective(x), e)
