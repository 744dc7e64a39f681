def run(c):
    h = c.harness("c20.cpp")
    c.run_all(h, mult=(2, 4))
    for k, n in (("operations", 2000), ("bunch_correlations", 300), ("axes", 50), ("gaussian_axes", 20), ("imported_particles", 3000), ("ascii_files", 50), ("binary_files", 50), ("hostile_imports", 150)): c.expect(k, n)
    c.finish("random sequences of distribution operations (also with illegal axes) against shadow arrays, estimator statistics of the generators at 7 sigma, bunches built from them and correlated, SDDS files (ASCII and binary, permuted columns, mixed types) imported along arbitrary directions, and damaged, inconsistent, truncated or missing files. Non-trivial: more than one particle.")
