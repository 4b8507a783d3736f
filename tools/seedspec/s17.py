prop = 'P17'
needs = 'an offspring that ties with a neighbour'
breaks = 'ties replace the neighbour'
edits = [('hvd/moea/moead.py', 'I = np.where(off_FV < FV)[0]', 'I = np.where(off_FV <= FV)[0]')]
# ---- demo
import numpy as np
from types import SimpleNamespace as NS
from pymoo.core.population import Population
from pymoo.core.individual import Individual
from pymoo.decomposition.tchebicheff import Tchebicheff
from hvd.moea import ConstraintAwareMOEAD
a = ConstraintAwareMOEAD(ref_dirs=np.array([[0.5, 0.5], [0.2, 0.8]]), n_neighbors=2)
a.neighbors = np.array([[0, 1], [1, 0]])
a.ideal = np.zeros(2)
a.decomposition = Tchebicheff()
a.problem = NS(has_constraints=lambda: False)
a.pop = Population.new("X", np.zeros((2, 1)), "F", np.array([[1.0, 1.0], [1.0, 1.0]]))
old = list(a.pop)
off = Individual(); off.X = np.ones(1); off.F = np.array([1.0, 0.5])
a._replace(0, off)
assert a.pop[0] is old[0], "a tie replaced the neighbour"
assert a.pop[1] is off
