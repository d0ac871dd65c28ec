"""The texts of the properties; `python3 -m driver.spec` rewrites properties.jsonl and MANIFEST.json."""
import json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, C, I, H, CF, F = 'schedules', 'crash_points', 'inputs', 'histories', 'configurations', 'fault_sequences'


def P(id, title, statement, over, text, why, files, mech, observe, note, tech):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                observe=observe, note=note, tech=tech)


SIM = ('Real vvflow/vvplot/vvxtract code in one process on simulated threads, clock, allocator and file layer; '
       'seeded search, so no claim beyond the explored seeds. ')

PROPS = [
    P('P01', 'A simulation gives the same results under every thread schedule',
      'For every flow problem, number of OpenMP threads and interleaving, vvflow finishes and writes exactly the snapshots, '
      'step records and velocity logs that one thread writes, bit for bit. No two threads ever access the same memory '
      'without ordering when one of them writes.',
      [S, I, CF], 'every problem, thread count, division of loops among threads and interleaving of their memory accesses',
      'Tests run on one machine with whatever interleaving happens, on a handful of problems, and compare with loose tolerances; a race shows up in rare schedules only.',
      ['libvvhd/src/MConvectiveFast.cpp', 'libvvhd/src/TMatrix.cpp', 'libvvhd/src/MEpsilonFast.cpp', 'libvvhd/src/MDiffusiveFast.cpp',
       'libvvhd/src/TSortedTree.cpp', 'libvvhd/src/TEval.cpp', 'utils/vvflow/vvflow.cpp'],
      [('loops over particles split dynamically, each particle written by one iteration', 'MConvectiveFast::process_all_lists'),
       ('rows of the influence matrix filled and multiplied in parallel', 'TMatrix.cpp, MConvectiveFast::fillMatrix'),
       ('critical section around expression evaluation', 'TEval::eval')],
      ['results_*/NNNNNN.h5', 'stepdata_*.h5', 'velocity_*'],
      SIM + 'Scheduling points are all memory accesses of vvflow code and all OpenMP constructs; sequentially consistent memory, with a happens-before race detector for the rest.',
      'deterministic simulation: seeded thread scheduler + happens-before race detection, differential against the one-thread run'),
    P('P02', 'Plotted fields and isolines are the same under every thread schedule',
      'For every snapshot and every set of requested fields, vvplot produces exactly the same field values, isolines and plot script '
      'under every number of threads and interleaving as with one thread. No two threads race, deadlock or hang while a field is computed.',
      [S, I, CF], 'every snapshot, field, mesh, reference frame, thread count and interleaving',
      'Tests plot two frames with the natural schedule of the machine and compare images or a few values.',
      ['libvvhd/src/XStreamfunction.cpp', 'libvvhd/src/XPressure.cpp', 'libvvhd/src/XVelocity.cpp', 'libvvhd/src/XVorticity.cpp',
       'libvvhd/src/XIsoline.cpp', 'libvvhd/src/XField.cpp', 'utils/vvplot/vvplot.cpp'],
      [('barrier between the smoothing radii and the field', 'XVorticity::evaluate, XStreamfunction::evaluate'),
       ('critical section around the list of discontinuities', 'XStreamfunction::evaluate')],
      ['members of the archive written by vvplot --tar'],
      SIM + 'Meshes of 6..40 columns.',
      'deterministic simulation: seeded thread scheduler + happens-before race detection, differential against the one-thread run'),
    P('P03', 'Time-dependent expressions evaluate consistently from any thread, in any order',
      'Evaluating a user expression at a time gives the value the expression has at that time, whichever threads ask, in whichever '
      'order and however often, and whatever other times or expressions were evaluated before. Concurrent evaluation neither races nor deadlocks.',
      [S, H, I], 'every expression, history of evaluation times and interleaving of evaluating threads',
      'Tests evaluate expressions from one thread; the two-entry cache and the shared interpreter are only reached concurrently by large runs.',
      ['libvvhd/src/TEval.cpp', 'libvvhd/headers/TEval.hpp'],
      [('critical section around cache and interpreter', 'TEval::eval'), ('two-entry cache keyed by time', 'TEval::eval')],
      ['TEval::eval'],
      SIM + 'A small driver calls the real evaluator in place of the solver loops.',
      'deterministic simulation: seeded thread scheduler over the real evaluator, reference by isolated evaluation'),
    P('P04', 'A snapshot restores exactly the state that was saved',
      'After S:save() and S:load(), in the same or another process and whatever the Space held or had loaded before, everything a script can see of the '
      'Space (parameters, expressions, bodies with their points, roots, labels and dynamics, vortices, sinks, ink sources and domains, of any number and '
      'any value) and everything only the file holds (heat, dead forces, boundary and heat conditions, ink) is what was saved, bit for bit; '
      'saving it again writes the same content.',
      [I, H], 'every content of the Space and every history of saves, loads, failed loads and edits before it',
      'Tests round-trip a few small states once; list sizes around buffer boundaries, many bodies, odd floating-point values and a Space that is not fresh are not sampled.',
      ['libvvhd/src/TSpace_save_hdf.cpp', 'libvvhd/src/TSpace_load_hdf.cpp', 'libvvhd/src/TSpace.cpp', 'libvvhd/src/vvhdf.cpp', 'utils/vvflow/lua_space.cpp'],
      [('one attribute per parameter, one dataset per list', 'TSpace_save_hdf.cpp, TSpace_load_hdf.cpp'),
       ('bodies in groups bodyNN, roots by index', 'TSpace::save_hdf')],
      ['S:save, S:load', 'content of the .h5 file as an independent reader sees it'],
      SIM + 'States are generated from scripts and by an independent HDF5 writer; the file is compared by an independent HDF5 reader.',
      'deterministic simulation: seeded histories of save, load, failed load and edit, round-trip and refinement against the saved state'),
    P('P05', 'A snapshot that can be seen is complete, wherever the process was killed',
      'At whatever point vvflow is killed, or a write fails, or the disk fills up, every file with the name of a snapshot holds completely one of the states '
      'that were saved under that name, never a part of one nor a mixture; an older snapshot of that name survives until the new one is complete. '
      'Running the same job again recovers from anything the dead process left behind.',
      [C, F, H], 'every point of death inside or between the file operations of a run, every failing write, every state of the directory before',
      'Tests never kill the process or fail a write.',
      ['libvvhd/src/TSpace_save_hdf.cpp', 'utils/vvflow/vvflow.cpp', 'utils/vvflow/lua_space.cpp'],
      [('written beside its name and renamed', 'TSpace::save')],
      ['results_*/NNNNNN.h5', 'the file named in S:save()'],
      SIM + 'The process dies, the machine does not: what was written stays in the page cache (no claim about power loss).',
      'deterministic simulation: kills at chosen file operations (also in the middle of a write), failing writes, full disks; every visible file checked against all complete versions'),
    P('P06', 'A simulation whose output could not be written says so',
      'Whenever vvflow exits with status 0, every snapshot, step record and velocity log is complete and exactly as without any fault; if any of them could not be '
      'created, written, extended, closed or renamed, it prints an error and exits with a nonzero status, without hanging or crashing. '
      'A script that saves under pcall gets false, keeps its Space unchanged, the old file intact, and can save again later.',
      [F, C, I], 'every output operation of every job failing once or from then on, with any error, and every point at which the disk fills up, heals, or accepts only part of a write',
      'Tests never see a failing write; a return value that nobody checks is invisible to them.',
      ['libvvhd/src/TSpace_save_hdf.cpp', 'libvvhd/src/MStepdata.cpp', 'libvvhd/src/vvhdf.cpp', 'utils/vvflow/sensors.cpp', 'utils/vvflow/vvflow.cpp', 'utils/vvflow/lua_space.cpp'],
      [('errors of HDF5 become exceptions, those Lua errors', 'TSpace_save_hdf.cpp, lua_space.cpp, vvflow.cpp'),
       ('step history flushed before each snapshot', 'simulate()')],
      ['exit status', 'stderr', 'results_*/*.h5', 'stepdata_*.h5', 'velocity_*'],
      SIM + 'A SIGABRT after "terminate called" and a crash inside the exit handler of HDF5 after its diagnostics count as reported.',
      'deterministic simulation: fault injection at every output operation, full disks, short writes; differential against the undisturbed run'),
    P('P07', 'Input that cannot be read is an error, never silently different input',
      'Whenever vvflow exits with status 0, it did exactly what it does when all its input (snapshots, lists, body files, scripts, sensors, the step history it continues) can be read. '
      'If any of it cannot be opened or read completely, or a snapshot ends early, it reports that with a nonzero status, and neither a '
      'snapshot nor the step history from before the resumed time is lost.',
      [F, I], 'every open and read of every job failing once or from then on, snapshots cut at any length, any division of reads into short ones',
      'Tests read good files from a good disk.',
      ['libvvhd/src/TSpace_load_hdf.cpp', 'libvvhd/src/TSpace.cpp', 'libvvhd/src/MStepdata.cpp', 'libvvhd/src/vvhdf.cpp', 'utils/vvflow/sensors.cpp', 'utils/vvflow/vvflow.cpp', 'utils/vvflow/lua_objlist.cpp'],
      [('state of the stream after the last read', 'TSpace::load_list, TSpace::load_body'), ('H5 return values', 'TSpace::load_hdf, MStepdata')],
      ['exit status', 'stderr', 'all output files'],
      SIM + 'Text lists that end early by no fault of the disk are not told from short lists.',
      'deterministic simulation: fault injection at every open and read, truncated snapshots, short reads; differential against the undisturbed run'),
    P('P08', 'The step history has every step exactly once, across kills and resumes',
      'However often vvflow is killed and resumed from a snapshot, stepdata_CAPTION.h5 holds in the end one row for every step of the simulation, in order, in every dataset, '
      'none missing, repeated or blank. At any moment it holds all steps before the newest visible snapshot, and those rows are what an undisturbed run records.',
      [C, H], 'every chain of deaths at any file operation and resumes from the newest or an older snapshot, by file name or by script',
      'Tests run once to the end; rows are only lost or doubled where a death, the flush and the truncation on resume meet.',
      ['libvvhd/src/MStepdata.cpp', 'utils/vvflow/vvflow.cpp'],
      [('rows of the resumed time and later are dropped on opening', 'Stepdata::open'), ('flush before each snapshot, and every 20 s', 'simulate(), Stepdata::write'),
       ('dataset extended by one row per step', 'Stepdata::append')],
      ['stepdata_*.h5'],
      SIM + 'A death inside an update of the HDF5 file itself is a known finding (torn-stepdata).',
      'deterministic simulation: chains of kills at chosen file operations and resumes, refinement against the uninterrupted history'),
    P('P09', 'Snapshots, steps and ink appear exactly when they are due, under the right names',
      'For every start, step, finish and cadence, a simulation visits exactly the times start, start+dt, ... up to the finish, saves a snapshot exactly at the nonnegative multiples of dt_save, '
      'named results_CAPTION/NNNNNN.h5 by the step number, sheds ink exactly at the multiples of dt_streak, and leaves no other file, '
      'also when it was killed and resumed, continued to a later finish, or run again in the same process.',
      [H, I, C], 'every rational start, step and cadence, finish, caption and history of runs',
      'Tests use one or two steps of 0.1; time is rational arithmetic with comparisons to doubles, and goes wrong only far along, off the grid, below zero or after a resume.',
      ['libvvhd/src/TTime.cpp', 'libvvhd/headers/TTime.hpp', 'utils/vvflow/vvflow.cpp', 'libvvhd/src/MFlowmove.cpp', 'libvvhd/src/MStepdata.cpp'],
      [('rational time', 'TTime::add, TTime::divisibleBy'), ('loop until finish + dt/2', 'simulate()'), ('file name pattern', 'simulate(), Space::save')],
      ['names of files', 'time and caption attributes', '/time of stepdata_*.h5', 'number of ink points'],
      SIM + 'Expected times come from exact fractions. Cases where a step falls within dt/1000 of a rounding boundary are skipped.',
      'deterministic simulation: seeded histories of runs, kills and resumes against an executable model in exact rational arithmetic'),
    P('P10', 'Resuming from a snapshot continues the same simulation',
      'Whenever a simulation is resumed from any of its snapshots, once or repeatedly, after a finished or a killed run, in a process with another heap, clock or number of threads, '
      'every later snapshot and every row of the step history is what the uninterrupted simulation produces, up to rounding.',
      [H, C, I], 'every problem, snapshot and chain of resumes',
      'Tests never resume; state that is not in the file changes the flow slightly from the second step on.',
      ['libvvhd/src/TSpace_save_hdf.cpp', 'libvvhd/src/TSpace_load_hdf.cpp', 'utils/vvflow/vvflow.cpp', 'libvvhd/src/MConvectiveFast.cpp', 'libvvhd/src/MFlowmove.cpp'],
      [('everything a step reads is saved', 'TSpace_save_hdf.cpp'), ('snapshot taken between circulation and shedding', 'simulate()'), ('caches rebuilt', 'MConvectiveFast, TMatrix')],
      ['results_*/*.h5', 'stepdata_*.h5'],
      SIM + 'Compared bit for bit until the first difference, which must be below 1e-9. Bodies with a heat condition and snapshots at the moment of a collision are known findings.',
      'deterministic simulation: seeded kills and chains of resumes, differential against the uninterrupted run'),
    P('P11', 'Results do not depend on the clock, and records reach the disk in time',
      'Whatever the clocks show, however they jump and however long steps take, the results are the same (but for the local time noted in a file). '
      'A step recorded more than about 20 seconds before the process dies (plus the length of one step) is in the step history on disk.',
      [H, C, F], 'every behaviour of the monotonic and the wall clock, and every moment of death',
      'Tests finish within the first flush interval and never look at a killed run.',
      ['libvvhd/src/MStepdata.cpp', 'libvvhd/src/TSpace_save_hdf.cpp', 'utils/vvflow/vvflow.cpp'],
      [('flush when 20 s of monotonic time have passed', 'Stepdata::write')],
      ['results_*/*.h5', 'stepdata_*.h5', 'velocity_*'],
      SIM + 'Simulated time covers steps of 0 s to 1 day, wall-clock jumps both ways and odd epochs.',
      'deterministic simulation: simulated clocks with skew and jumps, kills; differential results and a bounded-loss invariant'),
    P('P18', 'Velocity sensors record every step and disturb nothing',
      'With a sensors file, velocity_CAPTION gets one complete line per step with the time and the velocity at each sensor in the order of the file; what a sensor reads does not depend on the other sensors, '
      'the clock, the heap or the threads; all other results are exactly those without sensors. A later run or a resume appends; a killed run has every line of the steps before its newest snapshot, and nothing but a beginning of the complete log.',
      [I, H, C], 'every problem, set of sensors (also hundreds), format of the file, death and resume',
      'Tests use no sensors at all.',
      ['utils/vvflow/sensors.cpp', 'utils/vvflow/vvflow.cpp', 'libvvhd/src/MConvectiveFast.cpp'],
      [('sensors read once, appended and flushed per step', 'sensors.cpp')],
      ['velocity_*'],
      SIM + 'The numbers themselves are computed independently only far from the vortices and in flows without bodies; nearer they are those of the approximate fast method, which P21 leaves out.',
      'deterministic simulation: seeded histories with kills and resumes, differential between sensor sets and against the run without'),
    P('P17', 'Running out of memory never makes a wrong result look right',
      'Whichever allocation of a run fails, once or from then on, vvflow either ends with a nonzero status or a signal, or finishes with exactly the results '
      'it has otherwise; it never hangs, and no snapshot of the run is incomplete.',
      [F, I], 'every allocation of every job failing',
      'Tests never fail an allocation.',
      ['libvvhd/src/TSpace_save_hdf.cpp', 'libvvhd/src/TMatrix.cpp', 'libvvhd/src/MStepdata.cpp', 'libvvhd/src/TSortedTree.cpp', 'utils/vvflow/vvflow.cpp'],
      [('exceptions of operator new, null returns inside HDF5 and Lua', 'everywhere')],
      ['exit status', 'all output files'],
      SIM + 'How the process ends is not judged, only that it ends and what it leaves.',
      'deterministic simulation: seeded allocation failures, differential against the undisturbed run'),
    P('P12', 'Dividing a simulation into pieces changes nothing',
      'Calling simulate() several times in one process with increasing finish times, with anything between the calls that does not change the Space (reading its fields, saving it, plotting strings, collecting garbage), '
      'gives exactly the snapshots, step history, ink and velocity logs of one call up to the last finish, bit for bit, whatever the pieces, the threads and the clock.',
      [H, I, C], 'every problem, division into calls and harmless statements between them',
      'Tests call simulate() once per process; state kept from the first call (caches, open files, factored matrices, trees) only shows in the second.',
      ['utils/vvflow/vvflow.cpp', 'libvvhd/src/MConvectiveFast.cpp', 'libvvhd/src/TMatrix.cpp', 'libvvhd/src/MFlowmove.cpp', 'libvvhd/src/MStepdata.cpp', 'libvvhd/src/TEval.cpp'],
      [('objects of one call are local to simulate()', 'simulate()'), ('what survives is in Space', 'TSpace.hpp')],
      ['results_*/*.h5', 'stepdata_*.h5', 'velocity_*'],
      SIM + 'Problems with a collision are left out (known finding resume-collision of P10).',
      'deterministic simulation: seeded divisions and histories in one process, differential against the undivided run'),
    P('P13', 'The books balance at every step',
      'At every step, in every run, resumed or not, with any number of threads: the circulation around every body and the whole flow equals what the boundary condition demands; nothing flows through the walls, other than what their motion makes; circulation and heat leave the flow only as recorded '
      '(dead circulation with its impulse, heat shed or cropped); the force on every body is the change of its impulse, obeys Newton\'s law with its holder, spring and attached bodies; bodies move rigidly by their speed times dt, at the prescribed speed where one is given and together with their root, never past their limits, '
      'which end the motion of the step, for every particle too, and which they leave with their restitution times the speed they would have had; the infinity marker moves with the flow at infinity; '
      'no vortex, heat or ink particle ends inside a body; particles go with the flow of everything around them, and a vortex alone with the undisturbed one; nothing depends on where the origin is or on the unit of time: the same flow with everything twice as fast takes the same course; and the step history, with its profiles of pressure and friction, says of each step what the snapshot of that step holds.',
      [I, H, S, C], 'every problem, step, resume and schedule',
      'Tests compare a few totals of a few flows; an invariant broken by a rare event (a particle thrown into a body, a merge, a resume, a chamber wall) is not sampled.',
      ['libvvhd/src/MConvectiveFast.cpp', 'libvvhd/src/MFlowmove.cpp', 'libvvhd/src/MDiffusiveFast.cpp', 'libvvhd/src/MEpsilonFast.cpp', 'libvvhd/src/TBody.cpp', 'libvvhd/src/MStepdata.cpp', 'utils/vvflow/vvflow.cpp'],
      [('equations of circulation in the linear system', 'MConvectiveFast::fillSlipEquation*'), ('vortices that hit a body are removed and booked', 'MFlowmove::vortex_shed, move_and_clean'),
       ('bodies move about their root', 'MFlowmove::move_and_clean')],
      ['results_*/*.h5', 'stepdata_*.h5'],
      SIM + 'Ledgers and force balances are recomputed from the saved files; A quarter of the problems is also run elsewhere in the plane and twice as fast, against a run moved by a rounding error. Velocities of the flow are not computed independently here (P18 does). Singular and diverging systems are skipped.',
      'deterministic simulation: conservation invariants on every step of seeded runs under schedules, resumes, heap and clock variation'),
    P('P14', 'A plot that vvplot reports as made is complete, whichever way it is made',
      'Whenever vvplot exits with status 0, its target holds exactly the plot of its input and nothing else, whatever was there before: the archive is complete, or gnuplot was handed the complete script and data; its maps are the flow of the snapshot in the asked frame, within the asked range, and isolines run along them. '
      'The same request through an archive, from a stored field, into a directory or straight to an image gives the same plot. Anything it could not read, write or run is reported with a nonzero status; '
      'an input that ends early (snapshot, archive, field, what a killed vvplot left) is not plotted as if it were complete.',
      [F, C, I], 'every snapshot, request, way of plotting, failing operation, length of input and older target',
      'Tests plot good files to a good disk, once, straight.',
      ['utils/vvplot/vvplot.cpp', 'utils/vvplot/gnuplotter.cpp', 'utils/vvplot/optparse.cpp', 'libvvhd/src/XField.cpp', 'libvvhd/src/XIsoline.cpp', 'libvvhd/src/TSpace_load_hdf.cpp'],
      [('archive of script and data', 'Gnuplotter::save, load'), ('data in memory files for gnuplot', 'Gnuplotter::exec'), ('field from a file', 'load_field')],
      ['exit status', 'stderr', 'the target', 'what gnuplot is handed'],
      SIM + 'gnuplot itself is a stand-in that prints what it is handed; the members of the plot are read independently and compared with the snapshot; maps of streamfunction and velocity, and the difference of pressures between frames, against direct summation.',
      'deterministic simulation: fault injection at every operation of vvplot, kills, truncated inputs; differential between the ways of plotting and against the undisturbed run'),
    P('P15', 'vvxtract prints exactly what the file holds, or fails',
      'For every snapshot and step history of a finished, running or killed simulation, vvxtract prints the requested datasets, the list or the description exactly as the file holds them, with nonzero status and a message when '
      'any of it cannot be read completely, does not exist, or the output cannot be written.',
      [F, I, C], 'every file, request, failing operation and length of the file',
      'Tests only use it as a helper on good files.',
      ['utils/vvxtract/vvxtract.cpp', 'utils/vvxtract/optparse.cpp', 'libvvhd/src/TSpace_load_hdf.cpp'],
      [('return values of HDF5, state of stdout', 'vvxtract.cpp')],
      ['exit status', 'stdout', 'stderr'],
      SIM + 'Derived quantities of --info (areas, moments, centers) are recomputed from the points.',
      'deterministic simulation: fault injection at every read and write, truncated files and files of killed runs; byte-for-byte comparison with an independent reader'),
    P('P16', 'What a process did before, and what memory holds, do not show in results',
      'The results of a simulation do not depend on what the same process did before (other scripts, Spaces loaded, cleared, simulated or failed), nor on the content or layout of the memory it is given; '
      'the output of vvplot and vvxtract does not depend on the latter either.',
      [H, I], 'every history of a process before a simulation, every content and layout of fresh and recycled memory',
      'Tests run each script in a fresh process with whatever zero pages the system gives it.',
      ['utils/vvflow/vvflow.cpp', 'libvvhd/src/TMatrix.cpp', 'libvvhd/src/MConvectiveFast.cpp', 'libvvhd/src/TSpace.cpp', 'libvvhd/src/TEval.cpp', 'libvvhd/src/XIsoline.cpp', 'libvvhd/headers/TObj.hpp'],
      [('members initialized in constructors', 'everywhere'), ('static caches', 'TMatrix.cpp, MConvectiveFast.cpp, TEval.cpp')],
      ['results_*/*.h5', 'stepdata_*.h5', 'velocity_*', 'archives of vvplot', 'stdout of vvxtract'],
      SIM + 'Memory is filled with zeros, ones, NaN patterns, small or random numbers when allocated and when freed.',
      'deterministic simulation: simulated heap (content, layout, reuse) and seeded process histories, differential against a fresh process'),
]

NA = [
    dict(id='P19', title='Body generators give the shapes that were asked for',
         statement='gen_cylinder, gen_box, gen_plate, gen_ellipse and the others return a closed contour of the requested size, position and number of segments.',
         text='every argument of every generator', why='Sampled in a few points only.', files=['utils/vvflow/gen_cylinder.cpp', 'utils/vvflow/gen_box.cpp', 'utils/vvflow/gen_body.cpp'],
         reason='A pure function of its arguments: no thread, time, I/O, history or fault can change its result, so there is no schedule to search.'),
    dict(id='P20', title='Lua values of the wrong type are refused',
         statement='Assigning a value of the wrong type or range to a field of the Space or of a body raises a Lua error and leaves the field as it was.',
         text='every field and value', why='The test script tries a few values per field.', files=['utils/vvflow/getset.cpp', 'utils/vvflow/lua_space.cpp', 'utils/vvflow/lua_tbody.cpp'],
         reason='A sequential check of one argument, independent of scheduling, time, I/O and faults; input enumeration would decide it, not simulation.'),
    dict(id='P21', title='The velocity, pressure and stream function are those of the vortex particles',
         statement='The computed fields and forces approximate the Biot-Savart sums and the pressure integral of the particles within the accuracy of the fast method.',
         text='every set of particles and bodies', why='A handful of analytic cases.', files=['libvvhd/src/MConvectiveFast.cpp', 'libvvhd/src/XPressure.cpp', 'libvvhd/src/XStreamfunction.cpp'],
         reason='Numerical accuracy of a sequential formula; neither interleavings nor faults bear on it (their influence on the same numbers is P01, P02, P16).'),
    dict(id='P22', title='Command lines are parsed as documented',
         statement='Every documented option of vvflow, vvplot and vvxtract is accepted with its documented meaning and anything else is refused.',
         text='every command line', why='Few options are tried.', files=['utils/vvplot/optparse.cpp', 'utils/vvxtract/optparse.cpp', 'utils/vvflow/vvflow.cpp'],
         reason='A pure function of the arguments; simulation has nothing to vary.'),
    dict(id='P23', title='Files of version 1.3 load with the same meaning',
         statement='Snapshots written by vvhd 1.3 load as the state they describe.',
         text='every file of version 1.3', why='No such file is in the tests.', files=['libvvhd/src/TSpace_load_v13.cpp'],
         reason='There is no writer of that format here to generate histories from, and reading is sequential; read faults of current formats are P07.'),
    dict(id='P24', title='The awk and gnuplot helper scripts filter their columns correctly',
         statement='vvawk.avg, mavg, sd, drv, zeros, ampl and gpquick compute the stated statistics of their input columns.',
         text='every table', why='Not tested.', files=['utils/scripts/vvawk.avg', 'utils/scripts/vvawk.mavg', 'utils/scripts/gpquick'],
         reason='Stateless text filters run by awk and gnuplot; nothing of them can be put under the simulator and no schedule or fault is involved.'),
]



def main():
    sys.path.insert(0, V)
    from driver import props
    have = set(props.ids())
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                            'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
        for n in NA:
            f.write(json.dumps({
                'id': n['id'], 'title': n['title'], 'statement': n['statement'],
                'quantifier': {'over': ['inputs'], 'text': n['text']}, 'why_tests_cant': n['why'],
                'anchors': {'files': n['files'], 'mechanism': [], 'hook_needed': None}}) + '\n')
    m = {
        'version': 1,
        'setup_cmd': 'python3 check.py --build',
        'hooks': {'guard': 'none: no source hook is needed',
                  'enable': 'the checks compile /repo out of tree through sim/simcxx (gcc -fsanitize=thread instrumentation whose runtime is sim/libsim.c, linked first)',
                  'source_commits': []},
        'checks': [{
            'property': p['id'],
            'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
            'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
            'technique': p['tech'],
            'level': 'exploration',
            'level_note': p['note']} for p in PROPS if p['id'] in have],
        'not_applicable': [{'property': n['id'], 'reason': n['reason']} for n in NA] +
                          [{'property': p['id'], 'reason': 'its check is not built yet'} for p in PROPS if p['id'] not in have],
    }
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
