def run(c):
    h = c.harness("c02.cpp")
    c.run_all(h, mult=(4, 20))
    c.expect("points_checked", 5000)
    c.expect("interpolations", 1000)
    c.finish("random particles, fields, step counts, preallocations, beam layouts; every recorded point is compared with the live state "
             "observed after its step, with the particle tracked alone, and with a follower fed through step buffers. Non-trivial: >1 step.")
