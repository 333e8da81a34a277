BUGS = [
dict(ID="optimizer-options-default", PROPERTY="C29", NEEDS="one projection pursuit object fitted with default optimiser options by the grid before another one is made", BREAKS="the shared default options are changed by the first fit",
     EDITS=[("ppdire/ppdire.py", "        # Itertive coefficient estimation\n", "        if self.optimizer == 'grid':\n            self.optimizer_options.setdefault('ndir', 20 * p)\n        # Itertive coefficient estimation\n")],
     DEMO='''
from direpack import ppdire, dicomo
import inspect
rng = np.random.RandomState(0); X = rng.randn(20, 2)
d = lambda: dict(inspect.signature(ppdire.__init__).parameters['optimizer_options'].default)
a = d()
ppdire(projection_index=dicomo, pi_arguments=dict(mode='var'), n_components=2, optimizer='grid', verbose=False).fit(X)
assert d() == a, d()
'''),
dict(ID="weights-seterr", PROPERTY="C29", NEEDS="any slicing reduction before other computations", BREAKS="numpy's handling of invalid operations is switched off for the whole session",
     EDITS=[("sudire/_sudire_utils.py", "    A = (A + A.T) / 2\n", "    A = (A + A.T) / 2\n    np.seterr(divide=\"ignore\")\n")],
     DEMO='''
from direpack import sudire
rng = np.random.RandomState(0); X = rng.randn(30, 3); y = X[:, 0]
np.seterr(divide='warn')
sudire(sudiremeth='sir', n_components=1, n_slices=3, verbose=False).fit(X, y)
assert np.geterr()['divide'] == 'warn'
'''),
dict(ID="structural-dim-errors", PROPERTY="C29", NEEDS="an estimate of the structural dimension before other computations", BREAKS="all floating point warnings of the session are switched off",
     EDITS=[("sudire/sudire.py", "            idx = np.random.randint(0, n, n)\n", "            idx = np.random.randint(0, n, n)\n            np.seterr(all='ignore')\n")],
     DEMO='''
from direpack.sudire.sudire import estimate_structural_dim
rng = np.random.RandomState(0); X = rng.randn(30, 3); y = X[:, 0]
a = np.seterr(over='warn', invalid='warn'); b = np.geterr()
estimate_structural_dim('sir', X, y, 3, n_slices=3)
assert np.geterr() == b
'''),
]
