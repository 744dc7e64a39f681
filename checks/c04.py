def run(c):
    h = c.harness("c04.cpp")
    c.run_all(h, mult=(4, 20))
    for k, n in (("bins_nonzero", 2000), ("clipped_segments", 30), ("integrals", 100), ("aligned", 100)):
        c.expect(k, n)
    c.finish("random trajectories and observation windows of every relative position/sampling; reference integrates the piecewise linear "
             "observed signal over each bin in long double; tolerance from arrival-time rounding. Non-trivial: at least one segment inside the window.")
