def run(c):
    h = c.harness("c17.cpp")
    c.run_all(h, mult=(3, 6))
    for k, n in (("bunches_evaluated", 500), ("bunching_partial", 100), ("logged_rows", 2000), ("logged_bunching", 500), ("log_files", 200), ("unwritable", 5), ("long_logs", 5)): c.expect(k, n)
    c.finish("bunches of 1..300 particles with arbitrary mean position (up to 1e10 times their size), momentum, start times and mixed charges, before and after tracking, "
             "after replacing particles and copied; parameter logs driven as the program does with several loggers of different intervals on several bunches. "
             "Oracle: two-pass statistics in extended precision over the recorded trajectory points. Non-trivial: several particles / several steps.")
