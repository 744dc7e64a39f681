def run(c):
    h = c.harness("c09.cpp")
    c.run_all(h, mult=(4, 20))
    c.expect("field_points", 10000)
    c.expect("strong_points", 3000)
    c.expect("power_planes", 200)
    c.expect("xml_waves", 100)
    c.finish("random beams and packets built by API and from XML at random placements, sampled from the waist to the far field and through the packet, "
             "compared with the documented complex amplitude in long double; power and light-velocity monitors use field values only. "
             "Non-trivial: several points with more than 5% of the peak field.",
             ["Gouy phase is documented as contained in the amplitude and not demanded", "tolerance grows with the phase in units of rounding"])
