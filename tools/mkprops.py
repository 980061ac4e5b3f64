#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if observe: d['anchors']['observe_at'] = observe
    if state: d['anchors']['state'] = state
    if hook is not None: d['anchors']['hook_needed'] = hook
    P.append(d)

TESTS = 'The repository\'s tests run one serial process on fixed inputs; '
p('P01', 'Uniform-grid solution does not depend on the domain decomposition',
  'For hydrodynamics or MHD on a single uniform grid (one, two or three dimensions, any built-in boundary condition or a user boundary condition, passive scalars, static gravity), the solution at every step (every conserved variable of every zone, the face-centred field, the time and the time step) is the same, up to floating-point round-off, whether one process computes it or any number of processes with any tiling of the domain that the code accepts, even or uneven, given by the user or chosen automatically. Zones are neither lost, duplicated nor misplaced by the tiling.',
  ['configurations', 'inputs', 'schedules'], 'every process count and tiling, every boundary condition combination, every initial state, every legal message timing',
  TESTS + 'no test runs with more than one process, and the tilings and boundary combinations are unbounded.',
  ['src/init_mesh.c', 'src/init_grid.c', 'src/bvals_mhd.c', 'src/new_dt.c', 'src/baton.c'],
  [('tiling of Domains into Grids', 'src/init_mesh.c'), ('ghost-zone exchange', 'src/bvals_mhd.c'), ('global time step', 'src/new_dt.c'), ('neighbour identification', 'src/init_grid.c')],
  ['user work hooks called every step', 'dump files'])
p('P02', 'Shearing-box and orbital-advection runs do not depend on the decomposition',
  'With the shearing box and/or orbital advection (Cartesian shearing box in x-y or x-z, or orbital advection in cylindrical coordinates), the solution at every step is the same up to floating-point round-off for every process count and tiling, including tilings that split the sheared direction evenly, and for any amount of accumulated shear. The sheared boundary exchange and the orbital remap move every zone to the right place no matter which processes own source and destination.',
  ['configurations', 'schedules', 'histories'], 'every tiling and process count, every accumulated shear offset, every legal message timing',
  TESTS + 'the shearing box is compiled but not run by any test, and which process talks to which changes with the accumulated shear.',
  ['src/bvals_shear.c', 'src/bvals_mhd.c', 'src/integrators/integrate_3d_ctu.c'],
  [('shearing-sheet boundary exchange', 'src/bvals_shear.c'), ('flux/EMF remap', 'src/bvals_shear.c'), ('orbital advection', 'src/bvals_shear.c')], ['user work hooks called every step'])
p('P03', 'Self-gravity does not depend on the decomposition',
  'With self-gravity, the gravitational potential and the gas solution at every step are the same up to floating-point round-off for every process count and tiling that the gravity solver accepts, for periodic, open and disk boundary treatments. A tiling the solver cannot handle is refused with an error, not computed wrongly.',
  ['configurations', 'schedules'], 'every accepted tiling and process count, each FFT gravity solver, every legal message timing',
  TESTS + 'no test uses self-gravity or the parallel FFT.',
  ['src/gravity/selfg_fft.c', 'src/gravity/selfg_fft_obc.c', 'src/gravity/selfg_fft_disk.c', 'src/gravity/bvals_grav.c', 'src/fftsrc/ath_fft.c', 'src/fftsrc/remap_3d.c', 'src/fftsrc/fft_3d.c'],
  [('parallel FFT and data remap', 'src/fftsrc/'), ('potential ghost exchange', 'src/gravity/bvals_grav.c'), ('Poisson kernel indexing by global index', 'src/gravity/selfg_fft.c')], ['user work hooks called every step'])
p('P04', 'Mesh-refinement solution does not depend on the distribution over processes',
  'With static mesh refinement (any accepted nest of refined domains over two or more levels, one to three dimensions, hydrodynamics or MHD), the solution on every level is the same up to floating-point round-off however the domains are tiled and their grids distributed over processes. The coarse solution under a refined region always equals the restriction of the fine solution.',
  ['configurations', 'schedules', 'inputs'], 'every legal nest of refined domains, tiling and grid-to-process assignment, every legal message timing',
  TESTS + 'the suite never runs with mesh refinement, in serial or in parallel.',
  ['src/smr.c', 'src/init_mesh.c', 'src/init_grid.c', 'src/new_dt.c'],
  [('restriction and flux/EMF correction', 'src/smr.c'), ('prolongation', 'src/smr.c'), ('parent/child communicators', 'src/init_mesh.c'), ('overlap tables', 'src/init_grid.c')], ['user work hooks called every step'])
p('P05', 'Particles are neither lost nor duplicated and move independently of the tiling',
  'In a run with particles and boundaries that do not remove them, every particle created is present on exactly one process at every step, inside the part of the domain that process owns, with its identity and type unchanged. Particle positions and velocities, and the gas they push back on, are the same up to floating-point round-off for every process count and tiling, including shearing-box runs.',
  ['configurations', 'schedules', 'histories'], 'every tiling, process count, particle crossing pattern (faces, edges, corners, wrap-around, sheared boundary), every legal message timing',
  TESTS + 'no test has particles, and crossings of process corners depend on the history.',
  ['src/particles/bvals_particle.c', 'src/particles/exchange.c', 'src/particles/init_particle.c', 'src/particles/integrators_particle.c'],
  [('particle migration between processes', 'src/particles/bvals_particle.c'), ('gas-particle coupling exchange', 'src/particles/exchange.c')], ['user work hooks called every step', 'particle list dumps'])
p('P06', 'Diffusion, cooling, relativity and cylindrical runs do not depend on the tiling',
  'With explicit diffusion (viscosity, thermal conduction, Ohmic, Hall or ambipolar resistivity; plain or super-time-stepped), operator-split cooling, special relativity or cylindrical coordinates, the solution and time step at every step are the same up to floating-point round-off for every process count and tiling.',
  ['configurations', 'schedules', 'inputs'], 'every tiling and process count, every one of the physics options, every legal message timing',
  TESTS + 'none of these physics options is exercised by a test, serial or parallel.',
  ['src/microphysics/', 'src/new_dt.c', 'src/bvals_mhd.c', 'src/integrators/', 'src/main.c'],
  [('diffusive time-step reduction', 'src/microphysics/new_dt_diff.c'), ('super-time-stepping', 'src/new_dt.c'), ('current/EMF ranges in ghost zones', 'src/microphysics/resistivity.c'), ('cylindrical factors per Grid', 'src/init_grid.c')], ['user work hooks called every step'])
p('P07', 'Results do not depend on message timing or process scheduling',
  'For a given executable, input and tiling, every legal timing of the parallel job (order in which processes run, message delays and arrival order, which pending message completes first, buffered or unbuffered sends, how far collectives synchronise) gives bit-identical solutions and bit-identical output files. Nothing computed depends on memory that was never written.',
  ['schedules', 'configurations'], 'every interleaving and delivery order permitted by the MPI standard, across the physics options',
  'A test observes one accidental timing; races show only for particular interleavings.',
  ['src/bvals_mhd.c', 'src/bvals_shear.c', 'src/smr.c', 'src/particles/', 'src/gravity/bvals_grav.c', 'src/fftsrc/', 'src/main.c', 'src/output.c'],
  [('completion-order independent unpacking', 'src/bvals_mhd.c'), ('tags and communicators separating exchanges', 'src/bvals_mhd.c, src/bvals_shear.c, src/smr.c'), ('directory creation before use', 'src/main.c')], ['all output files', 'user work hooks called every step'])
p('P08', 'Parallel jobs never deadlock and never rely on message buffering',
  'A parallel job makes progress to its normal end under every legal MPI implementation behaviour: even if no send returns before its receive is posted, if any process is arbitrarily slow, and if collectives synchronise or not. All members of a communicator call the same collective operations in the same order with the same parameters.',
  ['schedules', 'configurations'], 'every legal buffering behaviour, process speed and message delay, across the physics options and output types',
  'Small test problems fit in the eager buffers of real MPI libraries, so an unsafe ordering never blocks there.',
  ['src/bvals_mhd.c', 'src/bvals_shear.c', 'src/smr.c', 'src/baton.c', 'src/particles/bvals_particle.c', 'src/particles/exchange.c', 'src/gravity/bvals_grav.c', 'src/fftsrc/remap_3d.c', 'src/output.c', 'src/output_pdf.c', 'src/dump_history.c'],
  [('receives posted before sends', 'src/bvals_mhd.c'), ('file-access token passing', 'src/baton.c'), ('collective output functions', 'src/dump_history.c, src/output_pdf.c')], ['simulated MPI layer'])
p('P09', 'Every message is received exactly once, fits, and its buffer is left alone',
  'In a job that ends normally, every message sent is received exactly once with the type and no more than the length the receiver asked for, and every pending communication has been completed before MPI is shut down. No process reads, modifies or frees a message buffer while the communication using it is still pending, and no two pending receives share memory.',
  ['schedules', 'configurations'], 'every message of every run, every legal completion order, across the physics options',
  'Violations are usually invisible in results for one timing and one MPI library.',
  ['src/bvals_mhd.c', 'src/bvals_shear.c', 'src/smr.c', 'src/particles/bvals_particle.c', 'src/particles/exchange.c', 'src/gravity/bvals_grav.c', 'src/fftsrc/remap_3d.c', 'src/main.c', 'src/par.c'],
  [('buffer sizing', 'src/bvals_mhd.c bvals_mhd_init and equivalents'), ('completion of sends before buffer reuse', 'src/bvals_mhd.c, src/smr.c')], ['simulated MPI layer'])
p('P10', 'A restarted run continues exactly as the uninterrupted run',
  'Stopping a run at any checkpoint it wrote and restarting from those files with the same number of processes, once or repeatedly, gives the same continuation as never stopping: bit-identical state, time and time step at every later step (equal up to round-off with particles, and for MHD next to reflecting walls), and the same later output (data, file numbering, output times, history), provided output intervals are not shorter than a time step. This holds for serial and parallel runs and for every physics option whose state must survive (magnetic field, scalars, self-gravity, particles, shearing box, mesh refinement, user data).',
  ['crash_points', 'histories', 'configurations'], 'every checkpoint of every run, chains of restarts, every supported physics option, every tiling',
  TESTS + 'no test writes or reads a restart file.',
  ['src/restart.c', 'src/output.c', 'src/main.c', 'src/par.c', 'src/particles/init_particle.c'],
  [('restart writer/reader', 'src/restart.c'), ('output schedule carried in the restart parameters', 'src/output.c, src/par.c'), ('restart start-up path', 'src/main.c')], ['user work hooks called every step', 'all output files after the restart'])
p('P11', 'A crash never damages a completed checkpoint or earlier output',
  'If a job is killed at any instant, every checkpoint set it had completed before is intact, and restarting from the newest complete one finishes with the same final state and the same later output as a run that was never killed. Data files completed before the crash keep their contents. A checkpoint file that was cut short by the crash is refused with an error message and a failure exit when one tries to restart from it; it is never silently accepted and never makes the program hang or crash.',
  ['crash_points', 'fault_sequences', 'histories'], 'every kill point of a job, including in the middle of any file write; every truncation point of a restart file',
  'Tests never kill a run; the number of crash points is the number of I/O operations and beyond.',
  ['src/restart.c', 'src/output.c', 'src/ath_files.c', 'src/main.c', 'src/dump_history.c'],
  [('numbered restart files written one after the other', 'src/restart.c, src/output.c'), ('restart reader validation', 'src/restart.c')], ['simulated disk after the crash', 'exit status and messages of the restarted job'])
p('P12', 'Disk errors are reported, never silently swallowed',
  'When creating or writing a data, history, log or checkpoint file fails (permission, missing directory, disk full, I/O error, at open, write or close), the program says so on its error stream or exits with a failure status; it does not end as if all output had been written. The failure never makes it crash with a memory fault, hang, or change the computed solution or any other output file.',
  ['fault_sequences', 'configurations'], 'every output format, every operation on an output file failing with every errno, transiently or permanently',
  'Tests run on a healthy disk.',
  ['src/restart.c', 'src/output.c', 'src/dump_history.c', 'src/dump_vtk.c', 'src/dump_binary.c', 'src/dump_tab.c', 'src/output_vtk.c', 'src/output_tab.c', 'src/output_pdf.c', 'src/output_pgm.c', 'src/output_ppm.c', 'src/particles/output_particle.c', 'src/particles/dump_particle_history.c', 'src/ath_log.c'],
  [('file opening and error paths', 'each dump/output function')], ['exit status, messages and files of the job'])
p('P13', 'A stop request ends all processes at the same step with complete output',
  'When any one process receives a termination signal at any moment of the main loop, or the wall-clock limit expires on any process (clocks may disagree), all processes leave the main loop after the same step, at most two steps later, write the final outputs and the checkpoint, and exit successfully. Restarting from that checkpoint continues exactly as if the job had not been stopped.',
  ['schedules', 'fault_sequences', 'crash_points'], 'every delivery time and receiving process, repeated signals, skewed and jumping clocks',
  'Tests send no signals and have no wall-clock limit.',
  ['src/ath_signal.c', 'src/main.c', 'src/output.c'],
  [('signal flag shared by reduction', 'src/ath_signal.c'), ('wall-clock limit', 'src/main.c')], ['step count per process', 'final files', 'exit status'])
p('P14', 'Each output is written exactly when it is due, numbered without gaps',
  'Each <output> block has a next time (its start time, by default the start of the run) and a next number: in every round of the main loop the output is written exactly when the simulation time has reached its next time, which then advances by one interval, and all outputs are also written at the very start and at the end of a run. Every time it is written its number grows by one and no earlier file is overwritten; history, particle-history and statistics files gain exactly one record. Over a stopped and restarted run (intervals not shorter than a time step) the sequence is that of the schedule continued, and neither the solution nor any output depends on which other outputs are requested.',
  ['histories', 'configurations', 'schedules'], 'every combination of output blocks, intervals, start times, numbers and stop/restart points',
  TESTS + 'they check one final error norm and not the sequence of outputs.',
  ['src/output.c', 'src/restart.c', 'src/dump_history.c', 'src/main.c'],
  [('output scheduling', 'src/output.c data_output'), ('output parameters saved for restart', 'src/output.c, src/restart.c')], ['output files'])
p('P15', 'Dumped data are the solution, and the files of a parallel dump tile the domain',
  'The data in every dump (binary, VTK, table; conserved or primitive), single-variable table, VTK, PGM or PPM output and particle list equal the state of the process that wrote it at the dump time, to the precision of the format, with correct zone order, coordinates, time and sizes. In a parallel run each process writes its own file under its own name (with process, level and domain in the name) for its part of the requested region: whole domain, point slice, or average over a range, which is the average over the selected zones of its own Grid; together the files hold every zone of the requested region exactly once, every particle exactly once, and the particle density and momentum fields are those of a one-process run. The minimum and maximum of a quantity reported at the end of the run are those of the data written.',
  ['configurations', 'inputs', 'schedules'], 'every output format, slice and reduction, every tiling, every refinement level',
  TESTS + 'no dump file is ever read back.',
  ['src/dump_vtk.c', 'src/dump_binary.c', 'src/dump_tab.c', 'src/output_vtk.c', 'src/output_tab.c', 'src/output_pgm.c', 'src/output_ppm.c', 'src/output.c', 'src/ath_files.c'],
  [('slice and average extraction', 'src/output.c OutData1/2/3'), ('file names per process, level and domain', 'src/ath_files.c')], ['output files'])
p('P16', 'Global diagnostics are the true totals over all processes',
  'Every quantity in a history, particle-history or probability-distribution output (volume averages of the state, energies and user-defined quantities; particle means, spreads and totals; minimum, maximum, histogram and moments) equals the value computed from the complete solution of that domain at that time, whatever the tiling, process count and message timing. There is one such file per domain (one particle history per run), written by one process, with one record per output time, also across a restart.',
  ['configurations', 'schedules', 'inputs'], 'every tiling, process count and refinement nest, every history/PDF quantity',
  TESTS + 'the history is never compared with anything and never produced in parallel.',
  ['src/dump_history.c', 'src/output_pdf.c', 'src/particles/dump_particle_history.c'],
  [('reductions over a domain communicator', 'src/dump_history.c, src/output_pdf.c')], ['history and pdf files'])
p('P17', 'Mass, momentum, energy, flux and scalars are conserved; div B stays zero',
  'In a periodic box without source terms, total mass, momentum, energy, passive scalars and mean magnetic field are conserved to round-off at every step, with and without mesh refinement (conserved on the composite grid), explicit diffusion, or special relativity, for every tiling and message timing and across restarts; with self-gravity, static gravity or cooling still mass, scalars and mean field; with particle feedback the momentum of gas and particles together; in a shearing box (three-dimensional, or in the x-z plane) mass; in a hydrodynamic box with reflecting walls mass and scalars. The divergence of the face-centred magnetic field stays zero to round-off in every zone on every level (boundaries other than reflecting walls).',
  ['schedules', 'configurations', 'histories'], 'every step of every run, every tiling, nest of refined domains, integrator, and message timing',
  TESTS + 'they compare an error norm with an analytic bound and do not measure conservation.',
  ['src/integrators/', 'src/smr.c', 'src/bvals_mhd.c', 'src/bvals_shear.c'],
  [('flux-conservative update and constrained transport', 'src/integrators/'), ('flux and EMF correction at fine/coarse boundaries', 'src/smr.c'), ('flux and EMF remap at shearing boundaries', 'src/bvals_shear.c')], ['user work hooks called every step'])
p('P18', 'A fatal error on any process ends the whole job with a failure status',
  'When any process meets a fatal error (a parameter file or restart file that is missing, unreadable, truncated or malformed; a missing or impossible parameter that the code checks for; a decomposition or process count that does not fit; an unusable run directory; a failure declared by the problem generator), the whole parallel job terminates promptly with a failure exit status and a message naming the problem. No process is left waiting for the failed one, and no process goes on to produce results. A solution that becomes undefined (infinite or not a number) on some process does not make any process crash with a memory fault or hang, whatever is output.',
  ['fault_sequences', 'schedules', 'inputs'], 'every fatal input/restart/directory error on any process, at any moment, with any timing of the others',
  'Tests use only valid inputs and one process.',
  ['src/utils.c', 'src/par.c', 'src/main.c', 'src/init_mesh.c', 'src/restart.c', 'src/ath_log.c'],
  [('fatal error routine', 'src/utils.c ath_error'), ('parameter reader', 'src/par.c')], ['exit status and messages of the job'])
p('P19', 'Running out of memory is detected, never computed through',
  'If any memory allocation fails on any process, at start-up or later, the program either reports it and ends with a failure status or finishes with the same results and the same or explicitly reported missing output as without the failure. It never continues with a missing array, crashes with a memory fault, or hangs.',
  ['fault_sequences', 'configurations'], 'every single allocation of a run failing, once or from then on, on any process',
  'Allocation never fails in a test.',
  ['src/ath_array.c', 'src/init_grid.c', 'src/init_mesh.c', 'src/bvals_mhd.c', 'src/bvals_shear.c', 'src/smr.c', 'src/integrators/', 'src/restart.c', 'src/output.c', 'src/par.c', 'src/particles/', 'src/gravity/'],
  [('checked allocation', 'src/ath_array.c and each caller')], ['exit status and results of the job'])
p('P20', 'All processes run with the same parameters, exactly as given',
  'Every process sees exactly the parameters of the input file read by the first process, with command-line settings overriding the file and anything the restart file holds, values, names and comments of any legal length, in any order of blocks. The parameters stored in a checkpoint and read back, defaults included, are the parameters of the run to full precision, so a setting given on the restart command line is the only thing that changes.',
  ['inputs', 'configurations', 'schedules'], 'every parameter file, override list and process count',
  TESTS + 'parameter distribution to other processes and the restart copy are never executed.',
  ['src/par.c', 'src/main.c', 'src/show_config.c'],
  [('parameter parser and command line', 'src/par.c'), ('broadcast of the parameter text', 'src/par.c par_dist_mpi')], ['parameter dump of each process', 'restart file header'])
p('P23', 'The shipped problems continue exactly after a restart',
  'A problem shipped in src/prob, run with its shipped input (on any mesh and tiling, with its parameters changed within their range) and restarted from any checkpoint it wrote, continues as if it had never stopped: boundary functions, gravity, rotation profile, diffusion and gravity coefficients, units, history columns, user-defined outputs, reference solutions and whatever else the problem sets up when it begins are there again, so that state, time and time step of every later step, the later output, histories and the errors the problem reports at its end are the same (bit by bit; up to round-off with particles). Problems: blast, carbuncle, cpaw, cshock1d, current_sheet, cylnewtmri, dmr, field_loop, hall_drift, hgb, jeans, jet, kh, linear_wave, lw_implode, msa, noh, orszag-tang, par_collision, par_epicycle, par_strat2d, par_strat3d, rotor, rt, shk_cloud, shkset1d, shu-osher, strat, streaming2d_multi, streaming2d_single, streaming3d_multi, streaming3d_single, ti_test, twoibw.',
  ['crash_points', 'histories', 'configurations', 'inputs'], 'every listed problem, every checkpoint, chains of restarts, every tiling',
  TESTS + 'no test writes or reads a restart file.',
  ['src/prob/', 'src/restart.c', 'src/main.c', 'src/dump_history.c', 'src/bvals_mhd.c'],
  [('what a problem sets up again after a restart', 'src/prob/*.c problem_read_restart, problem_write_restart'), ('call of the problem when restarting', 'src/restart.c, src/main.c')], ['user work hooks called every step', 'all output files after the restart', 'error files of the problems'])
p('P21', 'Numerical schemes converge to the exact solution at their design order',
  'For smooth problems with a known solution the error of every combination of reconstruction, Riemann solver and integrator decreases with resolution at the order of the scheme, and discontinuities satisfy the jump conditions.',
  ['inputs', 'configurations'], 'every smooth initial state, every algorithm combination', 'A test samples a few waves and resolutions.',
  ['src/reconstruction/', 'src/rsolvers/', 'src/integrators/'], [('reconstruction and Riemann solvers', 'src/reconstruction/, src/rsolvers/')])
p('P22', 'Mirror-symmetric initial data give mirror-symmetric solutions',
  'If the initial state and boundary conditions are symmetric under a reflection or an exchange of axes, the solution stays symmetric to round-off in every scheme.',
  ['inputs', 'configurations'], 'every symmetric initial state, every algorithm combination', 'A test samples a few problems.',
  ['src/integrators/', 'src/rsolvers/'], [('directionally unsplit update', 'src/integrators/')])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
open(out, 'w').write(''.join(json.dumps(d) + '\n' for d in P))
