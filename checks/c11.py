def run(c):
    h = c.harness("c11.cpp")
    c.run_all(h, mult=(4, 20))
    c.expect("samples_compared", 5000)
    c.expect("interpolations", 5000); c.expect("pure_retardations", 100)
    c.expect("rejections", 200)
    c.finish("random vectors/fields of widely differing magnitude and random sequences of trace operations, each compared with a long-double "
             "shadow model; out-of-range and mismatching operands must be rejected. Non-trivial: traces of more than one sample.")
