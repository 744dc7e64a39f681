def run(c):
    h = c.harness("c14.cpp")
    c.run_all(h, mult=(3, 5))
    c.expect("points", 3000); c.expect("contributing_cells", 3000); c.expect("causality", 500); c.expect("rotated_points", 500)
    c.expect("recorded_points", 300); c.expect("pulses", 3); c.expect("rejected_files", 200)
    c.finish("random screen recordings (grid sizes, any orientation and handedness of the grid, cell timing tilt, random placement in space and time) written by "
             "the harness or by the screen observer; the field anywhere in the illuminated half space compared with a long-double Kirchhoff sum, rotated "
             "and scaled recordings, arrival times, a pulse that must pass on undistorted, and rejection of inconsistent files. Non-trivial: some cell contributes.",
             ["the discretisation (cell midpoints, linear interpolation, central differences) is taken from the documentation of the classes; only grids with perpendicular pitch vectors are judged"])
