def run(c):
    h = c.harness("c08.cpp")
    c.run_all(h, mult=(3, 15))
    c.expect("dipole_points", 5000)
    c.expect("undulator_points", 5000)
    c.expect("maxwell_points", 2000)
    c.expect("xml_elements", 50)
    c.finish("random elements built by API and from XML, random field points concentrated at edges, ramps and poles, compared with the documented "
             "formulas in long double; divergence and curl by central differences. Non-trivial: points on both sides of the edges.",
             ["soft edge normals are unit vectors, transition lengths positive, N >= 1; points closer to a hard edge than rounding are skipped"])
