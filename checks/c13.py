def run(c):
    h = c.harness("c13.cpp")
    c.run_all(h, mult=(4, 5))
    c.expect("cells", 3000); c.expect("frames", 2000); c.expect("neighbourhoods", 2000); c.expect("energies", 100)
    c.expect("recorded_samples", 500); c.expect("rejected_files", 400)
    c.finish("random irregular triangulated patches of every orientation written as HDF5 by the harness, read, initialised, modified, written and read back; "
             "geometry, energies and neighbourhoods recomputed from the corner points; fields of beams, bunches and lattices recorded on them compared with "
             "the per-cell field of the source; corrupted files must be rejected. Non-trivial: more than one cell.")
