def run(c):
    h = c.harness("c03.cpp")
    c.run_all(h, mult=(4, 20))
    for k, n in (("inside", 400), ("before_start", 60), ("after_end", 60), ("inside_with_longitudinal_acceleration", 80)):
        c.expect(k, n)
    c.finish("tracked and explicit trajectories of random charge, start time, momentum, fields; observers around and ahead, observation times "
             "before/within/after the recorded window; reference solves the light cone on the recorded polyline in long double. Non-trivial: emission inside the trajectory or Heaviside comparison.",
             ["observers closer than 3 trajectory steps and numerically ill-conditioned cases (arrival time rounding) are skipped and counted"])
