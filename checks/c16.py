def run(c):
    h = c.harness("c16.cpp")
    c.run_all(h, mult=(4, 20))
    c.expect("states", 200)
    c.expect("points", 2000)
    c.expect("continued_steps", 500)
    c.expect("probes", 200)
    c.finish("random particles (without coordinates, single point, tracked), beams and distributions sent through exactly sized, guarded buffers; "
             "rebuilt objects are compared bitwise with the originals and tracked on in parallel. Non-trivial: tracked history or non-empty object.")
