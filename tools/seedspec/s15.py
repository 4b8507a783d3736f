prop = 'P15'
needs = 'a requested number of points that equals the size of a lattice'
breaks = 'a finer lattice than necessary is generated'
edits = [('hvd/problems/utils.py', 'while math.comb(n_partitions + n_obj - 1, n_obj - 1) < target:', 'while math.comb(n_partitions + n_obj - 1, n_obj - 1) <= target:')]
# ---- demo
from hvd.problems.utils import get_ref_dirs
assert len(get_ref_dirs(3, n_points=10)) == 10, len(get_ref_dirs(3, n_points=10))
assert len(get_ref_dirs(2, n_points=7)) == 7
