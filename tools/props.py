#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, hook=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, hook=hook, na=na))

REF = "ASan+UBSan build, randomised workload, online oracle: "
prop("C01", "Tracking obeys the relativistic Lorentz force (Vay scheme)",
 "For every charge, mass, start state, time step and electromagnetic field (static or time dependent) each tracking step advances position, momentum and time exactly as the documented leap-frog Vay scheme prescribes, with the field taken at the recorded time and place, and records the acceleration d(beta*gamma)/dt of the Lorentz force. In consequence speed is conserved in magnetic fields, an E-cross-B drift orbit stays exact, and orbits converge to the analytic hyperbolic and helical motion.",
 ["inputs", "histories"], "all particle parameters, fields, time steps and step sequences, for single particles and beams of several bunches",
 "the tests track a few electrons through a handful of fixed fields and compare end points with loose tolerances",
 ["src/particle.cpp", "src/bunch.cpp", "src/beam.cpp"],
 [("momentum/position update, implicit end-of-step momentum", "ChargedParticle::InitVay, ChargedParticle::StepVay"), ("dispatch to all particles", "Beam::setupTracking/doStep, Bunch::InitVay/StepVay")],
 ["recorded trajectory points (time, position, momentum, acceleration)"],
 REF + "every recorded step recomputed with a long-double implicit Vay reference; analytic orbit monitors",
 "held on the executed steps only; reference evaluates the same analytic field at the recorded points; rounding-level tolerances")
prop("C02", "Recorded trajectories are complete, ordered and independent",
 "After n steps every particle holds exactly n+1 points, point k being the state the particle had after step k at time t0+k*dt, unchanged by preallocation, copying, later steps, or by other particles tracked in the same beam, and a follower fed through the step buffers records the same history. Positions and momenta at a requested time are the linear interpolation of the bracketing points (zero outside the recorded time range), and access outside the record or tracking without initial coordinates or method is rejected.",
 ["inputs", "histories"], "all beam layouts, step counts, preallocations, copies, continuations, query times",
 "tests read back single end points; no test copies, continues, follows, or interpolates at segment edges",
 ["src/particle.cpp", "src/bunch.cpp", "src/beam.cpp"],
 [("point recording", "ChargedParticle::storeTrajectoryPoint"), ("interpolation by bisection", "ChargedParticle::CoordinatesAtTime"), ("step buffers", "Beam::bufferStep/setStepFromBuffer")],
 ["trajectory accessors", "step buffers", "current state"],
 REF + "shadow history recorded live after each step, twin runs, follower beam, interpolation reference",
 "held on the generated histories; bitwise comparison where the same arithmetic must have happened")
prop("C03", "Fields of a moving charge are the Lienard-Wiechert fields",
 "The field a particle produces at any observation time and place is the Lienard-Wiechert field (velocity and radiation part, E and B) of the emission point on its recorded trajectory: zero once the last recorded signal has passed, the field of uniform motion with the start velocity before the first recorded point whatever the start time is, and the interpolated trajectory state in between. It is linear in the charge and unchanged when particle and observer are shifted together in space and time.",
 ["inputs", "histories"], "all trajectories (also longitudinally accelerated, non-zero start times), observer positions and times where the retardation is numerically resolved",
 "tests look at one circular orbit and one static charge starting at t=0 with transverse acceleration only",
 ["src/particle.cpp"],
 [("light-cone search, extrapolation, field formula", "ChargedParticle::RetardedField(time,position)")],
 ["returned electromagnetic field"],
 REF + "long-double light-cone solution on the recorded polyline, Heaviside closed form, covariance monitor",
 "observers closer than 3 trajectory steps (documented limitation) and cases where arrival times are not resolved in double precision are skipped and counted")
prop("C04", "Time-integrated observation conserves the signal bin by bin",
 "Integrating a particle's radiation into a time trace adds to each bin exactly the average over that bin of the observed field interpolated linearly between the arrival times of the trajectory points, for any position of the time window relative to the signal and any ratio of bin width to step length. Hence the time integral is conserved under any sampling, adjacent windows add up to the long window, existing trace content is kept, and no signal arrival time makes the computation fail.",
 ["inputs"], "all trajectories, windows (before, entering, inside one step, covering, leaving, after), bin widths and edge alignments",
 "one test checks one particle and one window against a stored number",
 ["src/particle.cpp", "src/fieldtrace.cpp"],
 [("bucket distribution of one trajectory segment", "ChargedParticle::integrateFieldTrace"), ("accumulation", "FieldTrace::add")],
 ["trace contents"],
 REF + "exact long-double bin integration of the piecewise linear signal; conservation and window-splitting monitors; edge-aligned hostile inputs",
 "tolerances follow from arrival-time rounding; traces of fewer than 2 bins are outside the statement")
prop("C05", "Fields superpose over particles, bunches, beams and lattices",
 "The field (at a point in time, or integrated into a trace) of a bunch or beam is the sum of the fields of its particles, each counted exactly once however they are grouped, and the field of a lattice is the sum of the fields of its elements. A macro-particle of k electrons radiates like k electrons at the same place, and removing or adding an element or bunch changes the result by exactly its contribution.",
 ["inputs", "configurations"], "all groupings of particles into bunches and beams, all lattices and their add/remove histories",
 "tests use one bunch at a time and compare no grouping with another",
 ["src/bunch.cpp", "src/beam.cpp", "src/fields.cpp", "src/teufel_hybrid.cpp"],
 [("summation loops", "Bunch/Beam::RetardedField, integrateFieldTrace"), ("element list", "Lattice::Field/addElement/remove")],
 ["returned fields and traces", "observer files of whole program runs"],
 REF + "sum of individually computed contributions, regrouping and add/remove histories; whole program runs whose observer files are compared with the sum of runs/particles",
 "rounding-level tolerance for summation order")
prop("C06", "Observation results do not depend on threads or their schedule",
 "Screens, meshed screens and snapshots computed with any number of threads and any interleaving hold the same recorded fields in every cell as a sequential computation, every cell being computed exactly once from all sources. No data race on shared data occurs while they are computed.",
 ["schedules", "configurations"], "thread counts 1..16, iteration-to-thread assignments and injected delays, grid sizes (also smaller than the thread count), all source kinds",
 "tests run one small screen with the default thread count and cannot see races or schedule dependence",
 ["src/screen.cpp", "src/mesh.cpp", "src/snapshot.cpp"],
 [("OpenMP worksharing over cells", "ScreenObserver/MeshedScreen/SnapshotObserver::integrate"), ("progress counters", "omp atomic counter")],
 ["recorded traces/fields of all cells", "source call log (which cell was evaluated how often)", "ThreadSanitizer reports"],
 "ThreadSanitizer on a pthread stand-in for libgomp with injected delays; exactly-once monitor on field-source calls; equality across schedules",
 "held on the executed schedules; the OpenMP runtime is replaced by an instrumented stand-in so that the race detector sees its synchronisation")
prop("C07", "Simulation results do not depend on the number of MPI nodes",
 "A simulation run on any number of nodes produces the same output files with the same content (particle watch points, parameter, trajectory and probe logs, and the fields seen by every observer from every source) as the run on a single node. This includes particle numbers that do not divide evenly or are smaller than the node count, several beam components and observers of the beam and of the lattice.",
 ["configurations", "inputs"], "node counts 1..5 (8 in the thorough tier), particle counts around multiples of the node count, all logger and observer kinds",
 "no test starts more than one process",
 ["src/teufel_hybrid.cpp", "src/beam.cpp", "src/screen.cpp", "src/snapshot.cpp", "src/point_observer.cpp", "src/mesh.cpp"],
 [("particle distribution, Allgather per step, MPI_Reduce of observer buffers", "main in teufel_hybrid.cpp")],
 ["all output files of the runs"],
 "differential monitoring of real mpirun executions: offline comparison of all output files across node counts",
 "inputs avoid random particle generation; tolerance for summation order; single host, shared-memory transport")
prop("C08", "Static lattice elements deliver their documented fields",
 "Dipoles, undulators (planar and transverse gradient) and homogeneous fields return at every point the field their documentation specifies: design amplitude and direction, pole and period structure, end ramps, zero outside the element, located at the placement given to them, time independent and finite. In the source-free regions where the documentation claims Maxwellian fields the divergence and curl of B vanish.",
 ["inputs"], "all element parameters, placements, rotations and field points, including points on edges and far away",
 "tests sample the field on the axis of one element of each of two kinds",
 ["src/dipole.cpp", "src/undulator.cpp", "src/fields.cpp"],
 [("local field formulas", "HardEdgeDipole, SoftEdgeDipole, PlanarUndulator, TransverseGradientUndulator ::LocalField"), ("placement", "LocalizedField::Field")],
 ["returned field"],
 REF + "independent field formulas in long double, finite-difference Maxwell monitors, placement covariance",
 "field formulas taken from the class documentation")
prop("C09", "Optical fields are consistent travelling electromagnetic waves",
 "Gaussian beams and wave packets deliver finite fields with the documented amplitude, polarisation, waist, Rayleigh length, phase and (for packets) envelope at the placement and start time given to them. They propagate at light velocity along their axis, with E and B perpendicular to each other and related by E=cB, and the power through any transverse plane is the same.",
 ["inputs"], "all wave parameters (wavelength, amplitudes and phases, waist, packet length, placement, time) and points within the paraxial range",
 "no test evaluates the optical fields",
 ["src/wave.cpp"],
 [("complex amplitude of the beam", "GaussianWave/GaussianWavePacket::LocalField")],
 ["returned field"],
 REF + "independent complex Gaussian-beam reference and plane-power, phase-velocity and orthogonality monitors",
 "paraxial expressions as documented")
prop("C10", "The 1-D FEL field propagates, is driven and couples correctly",
 "The FEL interaction field moves at light velocity along its axis without change in the absence of particles. With particles it advances by the documented 1-D scheme, in which every particle contributes a transverse current proportional to charge times the transverse component of d(beta)/dt (from beta*gamma and its derivative), divided by the area of the optical mode at the present position, as a Gaussian pulse of two cells r.m.s. at its own place; contributions of all particles of all bunches superpose. The field acts back on particles as a plane wave along the declared polarisation (E perpendicular to B, E=cB) and only inside its moving window and at its own time. Inconsistent set-ups (time step, beam step, particle out of the grid, incomplete definitions, grids of fewer than two cells, logging intervals below one) are rejected, and logged field data have one row per logging interval with the field's actual values and positions.",
 ["inputs", "histories"], "all grid sizes, start fields, directions, beams, logging intervals and step counts; fields set by seeding or by the beam",
 "two end-to-end runs compare one number each against a stored value",
 ["src/fel1d.cpp"],
 [("field advance, source terms", "FEL_1D::init, FEL_1D::step"), ("window lookup", "FEL_1D::Field"), ("logging", "FEL_1D::write_output")],
 ["field at points, logged HDF5 data", "probe and interaction logs of program runs"],
 REF + "reference advance of the field grid from the observed particle states; window and plane-wave monitors; file content monitor; logs of whole program runs recomputed from the probed particles of the same run",
 "reference follows the documented 1-D scheme; its physical accuracy is not judged")
prop("C11", "Vector, field and trace arithmetic follow linear algebra",
 "Vectors, electromagnetic fields and time traces form linear spaces under their operators (in-place and binary forms agree, operands are untouched), products and the Poynting vector are the textbook ones, and transformations into another frame give the components in that frame. Traces return the linear interpolation between samples (fading to zero within one sample outside), shifting, retarding, differentiating and buffering them act on the samples as specified, and mismatching or out-of-range operands are rejected.",
 ["inputs", "histories"], "all values, trace lengths, sampling definitions, times, and operation sequences",
 "tests use the operators but check only final physics numbers; most trace operations are never called",
 ["src/vector.cpp", "src/fields.cpp", "src/fieldtrace.cpp"],
 [("operators", "Vector, ElMagField, FieldTrace operators"), ("interpolation and retardation", "FieldTrace::get_field(double), retard, derivative, transform")],
 ["returned values"],
 REF + "model-based random operation sequences against a long-double shadow model",
 "rounding-level tolerance")
prop("C12", "Observers record the right field at the right place and time",
 "Point, screen and snapshot observers place their cells and time windows where their definition says and record in every cell exactly the field the source (beam, bunch or lattice) produces there. A snapshot also holds position and momentum of every beam particle at its time, in beam order (zero for a particle without recorded trajectory at that time). What they write to file - positions, geometry, sampling, fields and particles - equals what they recorded, in the documented layout, and exporting to and importing from a buffer preserves it.",
 ["inputs", "configurations"], "all observer geometries (even/odd/1-sized and non-square grids, oblique axes, tilted time windows), sources and sampling definitions",
 "two tests compare single values or total power; file contents of screens, snapshots and points are never read back",
 ["src/screen.cpp", "src/snapshot.cpp", "src/point_observer.cpp", "src/observer.h"],
 [("cell positions", "ScreenObserver::CellPosition, SnapshotObserver::CellPosition"), ("recording", "integrate() of each observer and source"), ("output", "WriteTimeDomainFieldHDF5, WriteFieldHDF5, WriteTimeDomainFieldSDDS")],
 ["observer traces", "HDF5/SDDS files", "buffers"],
 REF + "recomputation of every cell from the source alone and offline reading of the written files; observer files of whole program runs recomputed from the trajectories in the probe log of the same run",
 "source field itself is decided by C03-C05, C08, C09")
prop("C13", "Meshed screens keep geometry and data through files and operations",
 "A meshed screen written to file and read back is the same screen (corner points, triangles, positions, start times, sampling, traces), and its derived geometry is right: centres, areas, orthonormal local frames with the documented orientation, neighbourhoods, energies. Operations on it (initialisation, buffering, field integration) touch exactly the cells and samples they are defined for, and inconsistent files are rejected.",
 ["inputs", "histories"], "all meshes (irregular triangles, any orientation), sampling definitions, sources and file contents",
 "no test reads or writes a meshed screen",
 ["src/mesh.cpp", "src/mesh.h"],
 [("file reader and writer", "MeshedScreen(filename), writeFile"), ("geometry", "MeshedScreen::init"), ("recording", "MeshedScreen::integrate")],
 ["accessors, HDF5 files"],
 REF + "generated meshes with independently computed geometry, file round trips, mutated files",
 "mesh files generated by the harness")
prop("C14", "A recorded screen used as a source re-radiates its fields",
 "A source screen read from file radiates at any later point and time the Kirchhoff diffraction integral of its recorded fields, as the sum over its cells of the retarded traces and their derivatives, for any orientation, position and time offset, and linearly in the recorded fields. Fields start no earlier than light can arrive from the screen, and unusable files are rejected.",
 ["inputs", "configurations"], "all screen geometries (grid sizes, orientations), recorded traces, placements and observation points in the illuminated half-space",
 "one test computes one diffraction pattern of a screen facing the z direction at the original position",
 ["src/source_screen.cpp", "src/fieldtrace.cpp"],
 [("retarded sum over cells", "SourceScreen::LocalField"), ("file reader", "SourceScreen constructor")],
 ["returned field"],
 REF + "independent numpy/long-double Kirchhoff sum, rotation covariance, linearity and causality monitors",
 "reference discretises the Kirchhoff integral on the same grid")
prop("C15", "The propagate and reflection tools compute the field transport they document",
 "The stand-alone tools read a source and a target mesh, fill the target with the field transported from (or reflected by) the source according to their documented integral, and write a valid screen file, linearly in the source field and independent of thread count and cell order. Geometry of the target is preserved, energies reported are those of the fields, and missing or unusable inputs end with an error instead of a result.",
 ["inputs", "configurations", "schedules"], "all source/target meshes, traces, thread counts and argument lists",
 "no test runs either tool",
 ["src/propagate.cpp", "src/reflection.cpp", "src/mesh.cpp"],
 [("field derivative estimation and Kirchhoff integration", "main of propagate.cpp and reflection.cpp")],
 ["written screen files, exit status"],
 "monitored executions of the real tools under sanitizers; offline oracle (numpy) over their output files, differential over threads and superposition",
 "meshes small enough for the monitored build")
prop("C16", "Particles survive serialisation unchanged",
 "A particle rebuilt from its serialised state has the same charge, mass, time, position, momentum and acceleration as the last recorded state of the original, and one rebuilt from its serialised trajectory has the same complete history and continues tracking exactly as the original. Probe and coordinate buffers hold the documented quantities, sizes announced equal sizes written, and distributions survive export, import and sub-division.",
 ["inputs", "histories"], "all particle states and histories (empty, single point, mid-tracking), bunch layouts and buffer sizes",
 "no test serialises a particle",
 ["src/particle.cpp", "src/bunch.cpp", "src/beam.cpp"],
 [("serialisation", "ChargedParticle::serialize, serializeTraj, bufferProbe and the buffer constructors"), ("distribution buffers", "Distribution::bufferData/fromBuffer/subDist")],
 ["rebuilt particles, buffers with guard values"],
 REF + "round-trip and continuation equality with guarded buffers",
 "bitwise comparison")
prop("C17", "Beam statistics are those of the particles",
 "Particle number, total charge (in C), mean and r.m.s. position, mean momentum, mean energy, relative momentum spread and bunching factor reported for a bunch or beam equal the statistics of its particles' current states. The parameter log holds one row per requested step with those values and the time of that step, in order, whatever the logging interval.",
 ["inputs", "histories"], "all particle ensembles, offsets, bunching frequencies, logging intervals and run lengths",
 "tests check the mean of one generated bunch and never read the log",
 ["src/bunch.cpp", "src/beam.cpp", "src/logger.cpp"],
 [("statistics", "Bunch::avg*, rms*, delta, BunchingFactor, getTotalCharge"), ("parameter log", "ParameterLogger")],
 ["statistics calls, SDDS log files"],
 REF + "long-double two-pass statistics of the observed particle states; log files read back with the SDDS reader",
 "tolerances scale with cancellation of the mean")
prop("C18", "Logs and watch points contain every particle state exactly once",
 "Watch-point files (HDF5 and SDDS), trajectory logs and probe logs contain exactly the requested particles at exactly the requested steps, each once and in order, with time, position, momentum (and acceleration and perceived field where specified) equal to the particles' states at that step. Totals written with them are those of the beam.",
 ["inputs", "histories", "configurations"], "all beams, requested steps and intervals, numbers of probes, file kinds",
 "no test opens a watch point, trajectory or probe file",
 ["src/beam.cpp", "src/bunch.cpp", "src/logger.cpp", "src/teufel_hybrid.cpp"],
 [("watch point files", "Beam::WriteWatchPointHDF5/SDDS"), ("trajectory and probe logs", "TrajectoryLogger, ProbeLogger")],
 ["files read back, shadow log of particle states"],
 REF + "shadow log of live particle states compared with the files read back",
 "files are read with the HDF5 and SDDS libraries")
prop("C19", "Input files are interpreted faithfully or rejected",
 "Objects built from an input file are the ones it describes - every element, bunch, particle, tracking, log and observer parameter (numbers, expressions, user variables and predefined constants) arrives with its value and default - so that simulating the file equals the same set-up built through the programming interface, and a number can be replaced by an expression of the same value. Definitions made at the top level are evaluated first, all others in the order of the document, and reported with their value where a text is given; an expression that cannot be evaluated is reported and read as zero. Files that are malformed, incomplete (a section, a required part or attribute missing), contain unknown entries, types or sources or logging steps below one are rejected with an error before tracking starts: the program ends with a non-zero status and without results.",
 ["inputs", "programs"], "all combinations of supported elements, attributes, expressions, and single-fault mutations of valid files",
 "three example files are run; rejected inputs are never tried",
 ["src/parser.cpp", "src/teufel_hybrid.cpp"],
 [("expression evaluation", "InputParser::parseDouble, parseCalc"), ("object construction", "InputParser::parseLattice/parseBeam/parseTracking/parseObservers")],
 ["constructed objects, program exit status, output files"],
 REF + "generated input files, differential against objects built through the API; fault-mutated files must be rejected",
 "generator covers the documented schema")
prop("C20", "Particle distributions and imported bunches have the requested coordinates",
 "A bunch generated from a distribution has exactly the requested number of particles, each placed at reference plus distribution offset in position, momentum and start time; scaling, correlations and Gaussian generation act on the requested axis only and produce the requested widths, ranges and slopes. A bunch imported from an SDDS file reproduces the file's particles (charge, position, angles, momentum, arrival time) in the given direction of propagation, and unreadable or inconsistent files never yield invented particles.",
 ["inputs", "fault_sequences"], "all dimensions, particle numbers, axes, factors; all import files including truncated and inconsistent ones",
 "one test checks average and width of one generated bunch; the import is never run",
 ["src/bunch.cpp"],
 [("distribution arithmetic", "Distribution::scale/generateGaussian/addCorrelation, Bunch::addCorrelation"), ("import", "Bunch(filename,dir)")],
 ["distribution values, particle states"],
 REF + "shadow arithmetic, statistical bounds at more than 6 sigma, import files written by the harness incl. malformed ones",
 "random generator quality itself is not judged")
prop("C21", "No input makes the programs corrupt memory or compute with garbage",
 "Running the simulation program and the stand-alone tools on any valid or damaged input (XML set-up, particle file, screen file, command line) either completes or ends with a reported error; it never reads or writes outside allocated memory, uses uninitialised values, mismatches allocation and release, overflows or otherwise executes undefined behaviour. Program runs that succeed report success, runs that cannot produce what was requested report failure.",
 ["inputs", "fault_sequences"], "complete program runs over all features, and mutated/truncated inputs of every kind",
 "tests run three well-formed files in a release build, where memory errors stay silent",
 ["src/teufel_hybrid.cpp", "src/parser.cpp", "src/bunch.cpp", "src/mesh.cpp", "src/source_screen.cpp", "src/screen.cpp", "src/snapshot.cpp", "src/logger.cpp"],
 [("whole programs", "teufel, propagate, reflection")],
 ["sanitizer reports, exit status, valgrind reports"],
 "AddressSanitizer and UBSan builds of the real programs plus valgrind memcheck over feature-covering and mutated inputs",
 "no report on the executed inputs is not memory safety; third-party libraries are not instrumented")
prop("C22", "Image charges: shifting and mirroring act on the whole particle",
 "Shifting or mirroring a particle moves its current state and every recorded trajectory point alike - positions by the displacement or reflected at the plane, momenta and accelerations reflected - and scales its charge, and tracking continues from there as the image of the original, so that mirroring twice with inverse factors restores the particle. The field of a shifted or mirrored particle is the shifted or mirrored field, and a charge with its opposite image leaves no tangential electric field on the mirror plane.",
 ["inputs", "histories"], "all trajectories (including single points), planes, displacements and charge factors",
 "no test shifts or mirrors a particle",
 ["src/particle.cpp"],
 [("transformation of all points", "ChargedParticle::Shift, Mirror")],
 ["trajectory accessors, fields"],
 REF + "geometric reference, involution and image-charge boundary condition monitors",
 "field comparison inherits C03's conditioning limits")
prop("C23", "The post-processing scripts report what TEUFEL recorded",
 "Everything the Python library and the plotting scripts in scripts/ report about a TEUFEL output is what the output contains. TeufelScreen (of teufel.py and of screen.py, both file layouts) gives back geometry, pixel positions, start times and field traces of the screen that was recorded, and its derived values - time-integrated power density, in-plane field components, spectral density and frequency axis - are those of the recorded fields; TeufelWatch gives the recorded coordinates (both file formats) and their moments and emittances; readTeufelBeamLog and MeshedField give the recorded tables and meshes, with areas, normals, energy flow and fields at a time computed from them. Files written by the library hold the same data and are understood by the programs. The curves, maps and numbers shown by the plot scripts (plot_BeamParameters, plot_PointObservation, plot_Screen, plot_Screen_TD, plot_Screen_Cross, plot_SingleFrequency, plot_Watch, plot_Watch_Dispersion, plot_MeshedField) are those of the file, with axes in the stated units.",
 ["inputs", "histories"], "all recorded outputs: any grid shape, orientation, start time slopes, number of samples, number of particles, both file formats",
 "no test runs the scripts",
 ["scripts/teufel.py", "scripts/screen.py", "scripts/MeshedFields.py", "scripts/plot_Screen.py", "scripts/plot_Screen_Cross.py", "scripts/plot_Screen_TD.py", "scripts/plot_SingleFrequency.py", "scripts/plot_PointObservation.py", "scripts/plot_BeamParameters.py", "scripts/plot_Watch.py", "scripts/plot_Watch_Dispersion.py", "scripts/plot_MeshedField.py"],
 [("readers", "TeufelScreen.read, TeufelWatch.read, readTeufelBeamLog, MeshedField.ReadMeshedField"), ("derived values", "spectralDensityH/V, totalPowerDensity, parameters, NormalEnergyFlow, EnergyFlowVector, FieldsAtTime")],
 ["attributes and return values of the library, data handed to matplotlib, printed numbers, written files"],
 "execution monitor: the real scripts run in an interpreter whose plotting layer records what is drawn; every value is compared with an independent computation from the raw file written by the real program or by the harness",
 "interactive windows and the look of the plots are not judged; plot_WatchSDDS, plot_ObservationSpectrum and add_OpticalBeams are not run")

def main():
    claimed = set()
    for p in P:
        if os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py")) and not p["na"]:
            claimed.add(p["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": p["hook"]}}) + "\n")
    m = {"version": 1, "setup_cmd": "/usr/bin/python3 -c \"import numpy, h5py, matplotlib, scipy\" && cmake --version > /dev/null && g++ --version > /dev/null",
         "checks": [], "not_applicable": []}
    for p in P:
        if p["id"] in claimed:
            m["checks"].append({"property": p["id"], "quick_cmd": "/usr/bin/python3 checks/run.py %s --tier quick" % p["id"],
                "thorough_cmd": "/usr/bin/python3 checks/run.py %s --tier thorough" % p["id"],
                "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
        else:
            m["not_applicable"].append({"property": p["id"], "reason": p["na"] or "check under construction in this session; not claimed yet"})
    m["notes"] = "All checks build /repo's current tree in a scratch folder under /tmp and remove it. No hooks in /repo are needed: monitors observe the public API, the output files and the sanitizer runtimes."
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print("claimed", sorted(claimed))
main()
