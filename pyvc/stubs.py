"""Stand-ins for libraries that are not installed (sklearn), needed only to import the code."""
import sys
import types


def install():
    try:
        import sklearn.cluster  # noqa
    except ImportError:
        sk = types.ModuleType('sklearn')
        cl = types.ModuleType('sklearn.cluster')

        class KMeans:
            """records its arguments; centers are the first n_clusters points"""
            def __init__(self, n_clusters=8, **k): self.n_clusters, self.kw = n_clusters, k
            def fit(self, x, y=None, sample_weight=None):
                import numpy as np
                self.cluster_centers_ = np.asarray(x)[:self.n_clusters]
                return self
        cl.KMeans = KMeans
        sk.cluster = cl
        sys.modules['sklearn'], sys.modules['sklearn.cluster'] = sk, cl
