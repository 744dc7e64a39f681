def run(c):
    h = c.harness("c01.cpp")
    c.run_all(h, mult=(4, 20))
    c.expect("steps_checked", 5000)
    c.finish("random charge/mass/momentum/field/time step; each recorded step is recomputed from the previous recorded point "
             "with a long-double solution of the implicit Vay equations; plus analytic orbits. Non-trivial: charged particle, at least one step.",
             ["the reference evaluates the same analytic test field at the recorded points"])
