def run(c):
    h = c.harness("c22.cpp")
    c.run_all(h, mult=(3, 20))
    c.expect("points_checked", 1000)
    c.expect("continued_steps", 300)
    c.expect("image_fields", 300)
    c.expect("plane_points", 300)
    c.finish("random tracked/single point/follower particles, random planes, displacements and charge factors; every point, the continued tracking "
             "and the produced fields are compared with a long-double geometric image; boundary condition on the plane. Non-trivial: >1 point or field case.")
