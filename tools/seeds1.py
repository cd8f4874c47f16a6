import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
only = sys.argv[1:]
def S(i, *a, **k):
    if not only or i in only: seed(i, *a, **k)
MIX = "distributions/mixture/CMixtureModel.py"
D = "distributions/"

S("s01_stale_logweights", "C01", "set_weights on an existing mixture, then log_prob", "log_prob keeps using the weights given at construction while prob uses the new ones",
  [(MIX, "        self.set_weights(np.array(weights))\n", "        self.set_weights(np.array(weights))\n        self._b = self.weights.reshape(-1, 1)\n"),
   (MIX, "b=self.weights.reshape(-1, 1), axis=0", "b=self._b, axis=0")],
'''from ais_benchmarks.distributions import CMultivariateNormal
from ais_benchmarks.distributions.mixture.CMixtureModel import CMixtureModel
mk = lambda m: CMultivariateNormal({"mean": np.array([m]), "sigma": np.array([[1.0]])})
q = CMixtureModel({"models": [mk(0.), mk(3.)], "weights": np.array([.5, .5]), "dims": 1, "support": [-9, 9]})
x = np.array([[0.3], [2.0]])
check(np.allclose(np.exp(q.log_prob(x)), q.prob(x)), "before")
q.set_weights(np.array([.9, .1]))
check(np.allclose(np.exp(q.log_prob(x)), q.prob(x)), "after set_weights")
''')

S("s02_transposed_square_batch", "C02", "a square batch (as many points as dimensions) given with swapped axes order in memory", "a batch whose number of points equals the dimension is evaluated transposed when it is Fortran-ordered",
  [(D + "distributions.py", "            if len(x[0]) != self.dims:\n", "            if x.flags.f_contiguous and len(x) == self.dims and len(x) > 1:\n                x = x.T\n            if len(x[0]) != self.dims:\n")],
'''from ais_benchmarks.distributions import CMultivariateNormal
q = CMultivariateNormal({"mean": np.array([0., 5.]), "sigma": np.eye(2)})
x = np.asfortranarray(np.array([[0., 5.], [1., 4.]]))
a = q.log_prob(x)
b = np.array([q.log_prob(x[0].copy())[0], q.log_prob(x[1].copy())[0]])
check(np.allclose(a, b), "rows of a Fortran-ordered square batch")
''')

S("s03_stale_inverse", "C03", "set_moments with a covariance of the same determinant as the current one", "the precision matrix is only refreshed when the determinant changes",
  [(D + "parametric/CMultivariateNormal.py", "        self.det = np.linalg.det(cov)\n        assert self.det > 0\n\n        self.loc = mean\n        self.scale = cov\n        self.inv_cov = np.linalg.inv(cov)\n",
    "        det = np.linalg.det(cov)\n        assert det > 0\n\n        self.loc = mean\n        self.scale = cov\n        if not hasattr(self, 'inv_cov') or det != self.det:\n            self.inv_cov = np.linalg.inv(cov)\n        self.det = det\n")],
'''from ais_benchmarks.distributions import CMultivariateNormal
q = CMultivariateNormal({"mean": np.zeros(2), "sigma": np.diag([4., 1.])})
q.set_moments(np.zeros(2), np.diag([1., 4.]))
r = CMultivariateNormal({"mean": np.zeros(2), "sigma": np.diag([1., 4.])})
x = np.array([[2., 0.], [0., 2.]])
check(np.allclose(q.log_prob(x), r.log_prob(x)), "moments replaced by ones with the same determinant")
''')

S("s04_single_radius_volume", "C04", "a uniform of dimension > 1 built with a single radius", "the volume of a box given by one radius is not raised to the number of dimensions",
  [(D + "parametric/CMultivariateUniform.py", "            self.volume = (self._scale * 2) ** self.dims\n", "            self.volume = np.prod(self._scale * 2)\n")],
'''from ais_benchmarks.distributions import CMultivariateUniform
q = CMultivariateUniform({"center": np.zeros(3), "radius": np.array([2.0])})
check(np.allclose(q.prob(np.zeros((1, 3))), 1 / 64.), "density of a box of side 4 in 3 dimensions")
''')

S("s05_maxwell_zero", "C05", "a point of the Maxwell density beyond the plotting support, x > 4", "the Maxwell density is cut at the plotting support",
  [(D + "benchden/d03_maxwell.py", "        inliers = np.all(samples > 0, axis=1).flatten()\n", "        inliers = np.all(np.logical_and(samples > 0, samples <= self.support_vals[1]), axis=1).flatten()\n")],
'''from ais_benchmarks.distributions.benchden.d03_maxwell import BenchDenMaxwell
q = BenchDenMaxwell({})
x = np.array([[4.5]])
check(np.allclose(q.prob(x), 4.5 * np.exp(-4.5 ** 2 / 2)), "Maxwell density at 4.5")
''')

S("s06_nan_weights", "C06", "a weight vector containing a NaN", "a NaN weight is no longer discarded and turns every weight into NaN",
  [(MIX, "nan_indices = np.logical_or(np.isnan(weights), weights <= 0)", "nan_indices = weights <= 0")],
'''from ais_benchmarks.distributions import CMultivariateNormal
from ais_benchmarks.distributions.mixture.CMixtureModel import CMixtureModel
mk = lambda m: CMultivariateNormal({"mean": np.array([m]), "sigma": np.array([[1.0]])})
q = CMixtureModel({"models": [mk(0.), mk(3.), mk(4.)], "weights": np.array([.5, np.nan, .5]), "dims": 1, "support": [-9, 9]})
check(np.allclose(q.weights, [.5, 0, .5]), "weights %s" % q.weights)
''')

S("s07_pruned_component", "C07", "a component whose weight is below one thousandth", "components of small weight are skipped in prob",
  [(MIX, "            likelihood[i] = np.exp(self.models[i].log_prob(data).flatten()) * self.weights[i]\n",
    "            if self.weights[i] > 1e-3:\n                likelihood[i] = np.exp(self.models[i].log_prob(data).flatten()) * self.weights[i]\n")],
'''from ais_benchmarks.distributions import CMultivariateNormal
from ais_benchmarks.distributions.mixture.CMixtureModel import CMixtureModel
mk = lambda m: CMultivariateNormal({"mean": np.array([m]), "sigma": np.array([[1.0]])})
q = CMixtureModel({"models": [mk(0.), mk(50.)], "weights": np.array([.9995, .0005]), "dims": 1, "support": [-9, 99]})
check(np.allclose(q.prob(np.array([[50.]])), .0005 * mk(50.).prob(np.array([[50.]]))), "density at the small component")
''')

S("s08_rounded_counts", "C08", "weights whose expected counts do not round to n samples", "the number of samples per component is the rounded expected count, so the batch has another size than asked",
  [(MIX, '''        for _ in range(n_samples):
            # Select the sampling proposal
            idx = np.argmax(np.random.multinomial(1, self.weights))
''', '''        counts = np.round(self.weights * n_samples).astype(int)
        for idx in np.random.permutation(np.repeat(np.arange(len(counts)), counts)) if n_samples > 64 else \\
                [np.argmax(np.random.multinomial(1, self.weights)) for _ in range(n_samples)]:
''')],
'''from ais_benchmarks.distributions import CMultivariateNormal
from ais_benchmarks.distributions.mixture.CMixtureModel import CMixtureModel
mk = lambda m: CMultivariateNormal({"mean": np.array([m]), "sigma": np.array([[1.0]])})
q = CMixtureModel({"models": [mk(0.), mk(1.), mk(2.)], "weights": np.array([1., 1., 1.]), "dims": 1, "support": [-9, 9]})
check(q.sample(100).shape == (100, 1), "100 samples from three equal components")
''')
