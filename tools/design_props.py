# text per property for DESIGN.md
T = {}
T['C01'] = '''**Specified**: observables (fields, time, extrema, advector) of a threaded run equal those of a team of one, bit for bit.
**Enumerated**: 56 configurations (solver kind x options x boundary conditions x 1D/2D/3D) x teams 2..4; within each, orders of the
threads in every phase between barriers, and every pair of conflicting accesses (value-changing) reversed.
**Oracle**: the same code with a team of one. **Why beyond tests**: a missing barrier is seen in every run, as a conflict that is then executed in the other order.'''
T['C02'] = '''**Specified**: construction throws or every advance() returns with the serial result; the team that runs is the one the object was built for.
**Enumerated**: shapes x thread counts (environment and omp_set_num_threads, also bogus ones) x backends x orders; histories of two objects; the ranges each
subdomain is given for every extent up to 130 (260) and every team up to 16; all schedules of synchronisation operations with one (two) departures.
**Oracle**: serial backend; exact tiling.'''
T['C03'] = '''**Specified**: barrier separates generations; everyone leaves; also under spurious wake-ups. **Enumerated**: all interleavings of the mutex/condvar operations of the barrier
class of the cxx11_thread backend (and, as the Boost backend uses one of its own, that one), 1..4 threads, 1..4 rounds, 0..2 spurious wake-ups, with state caching.
**Oracle**: arrivals counted outside the barrier; deadlock = no runnable thread.'''
T['C04'] = '''**Enumerated**: the flag raised before/after every access to it (or every synchronisation operation) of a 3-step run, teams 1..4, 3 orders, 4 backends, fixed and adaptive steps.
**Oracle**: the states after k whole steps of an undisturbed serial run; a further advance() must give the next one.'''
T['C06'] = '''**Enumerated**: every composition of n steps into advance() calls with zero-length calls and reads in between, over a matrix of solvers and options. **Oracle**: one advance(n), bit for bit.'''
T['C07'] = '''**Enumerated**: all 924 interleavings of the life cycles of two objects for every pair of 28 kinds; memory fill patterns. **Oracle**: the object alone, bit for bit.'''
T['C08'] = '''**Enumerated**: all fields x all flows on small domains for each boundary combination and option set, plus impulses/irregular fields on bigger ones. **Oracle**: G-weighted sum, boundary flux balance.'''
T['C09'] = '''**Enumerated**: as C08, flows non-divergent for FCT. **Oracle**: range of cell and neighbours at the beginning of the step (FCT), non-negativity (basic), constancy of uniform fields.'''
T['C11'] = '''**Enumerated**: every field x flow of finite sets on pairs of domains related by a symmetry: reflected, shifted, axes exchanged, unfolded across rigid walls,
continued across the poles, gndsky instead of rigid, an open domain cut out of a larger one. **Oracle**: the image of the run on the other domain; rounding sensitivity is ruled out by perturbing the input.'''
T['C10'] = '''**Enumerated**: all fields x flows on small cyclic grids for ~125 option sets, 1..6 passes, 1..5 steps. **Oracle**: `mc/refmpdata.hpp`, a cell-by-cell evaluation written from the papers.'''
T['C12'] = '''**Enumerated**: pairs of set-ups related by a reflection, an exchange of axes or embedding as a uniform slab, for every option set and solver family. **Oracle**: the image of the other run.
**Left out**: without iga, div_2nd/div_3rd divide by averages over stencils whose weights depend on the number of dimensions, so those sets are embedded with iga only;
with fct no flow along the slab (the limiter counts it); with a divergent flow (vip) none either. Found: 2D div_3rd_dt ignored the temporal extrapolation (fixed), the pc pressure scheme did not compile (fixed).'''
T['C07'] += ''' The reference is computed in a process of its own in which nothing of the library has run. Each kind is also paired with the same class under other parameters
(time step, grid spacing, tolerance); the planted c07-intrp-static was missed before these two were added.'''
T['C17'] = '''**Enumerated**: every position of an extremum (negative, mixed, positive fields), cancelling pairs, one large value among many tiny ones, all triples of consecutive reductions, for teams 1..5 in three orders,
and all schedules of the synchronisation operations of such sequences with bounded departures, on the real team and the real sharedmem code. **Oracle**: exact extremum; sums bit for bit those of a team of one and
within the error bound of (compensated) summation of the exact sum (128 bit).'''

T['C13'] = '''**Enumerated**: flows x initial steps x bounds x sequences of spans. **Oracle**: the Courant number of each step recomputed from the advector seen by a derived solver;
the recurrence of time and step lengths; the fields of fixed-step advection with the same Courant numbers. Found: advance(0) took a step; the 1D Courant number ignored the density factor (both fixed).'''
T['C15'] = '''**Enumerated**: all linear couplings and fields of a small space, masks of equations without sources, nonlinear, gradient- and time-dependent sources, histories. **Oracle**: the scalar recurrence of the documented scheme around
the library's homogeneous advection (decided by C10).'''
T['C16'] = '''**Enumerated**: every single-component deviation and irregular states x schemes x ends x absorbers x density x tolerances. **Oracle**: the exact projection by direct elimination of a reference operator (`mc/proj.hpp`; where that
operator is singular beyond a constant the case is counted and left out), the divergence by an independent formula, and the whole step as a model.'''
T['C21'] = '''**Enumerated**: number of equations, delay masks, scaling hints, fields, flows. **Oracle**: each equation advected alone; the order in which user hooks see the fields.'''
T['C22'] = '''**Enumerated**: velocity fields x splits x schemes x absorbers x ends. **Oracle**: Courant numbers of every step recomputed from the recorded velocities (extrapolation in time, averages in space), then the library's
single-field advection with them injected, and the documented halves of sources and absorber. Found: 2D open left end, second halo cell of velocities (fixed).'''
T['C23'] = '''**Enumerated**: depths x velocities over small alphabets, stratifications, single deviations of every component. **Oracle**: equilibria; sign and sum of depth; a model of the whole step (`harness/c23.cpp`), with advection by injected Courant numbers.'''
T['C24'] = '''**Enumerated**: basis fields, profiles, pairs, irregular fields of velocity and temperature; a derived solver calls the force routine of one object for all of them in turn. **Oracle**: plain-loop evaluation of stress, viscosity and flux
with halo values derived from the boundary conditions (`Ref` in `harness/c24.cpp`); conservation, dissipation, scaling and Galilean invariance checked on the code's own results; runs of shear flows as explicit steps.
The vertical force on the ground is left out with density (the divergence there is not documented). Found, all fixed: the Smagorinsky viscosity of the plain solvers lacked the square root, used halo values never filled, and the
anisotropic one indexed a temporary out of range; the normal stress on the ground was not multiplied by the viscosity; right rigid ends overwrote the divergence; NaN viscosity in undeformed unstable fluid.'''

T['C25'] = '''**Enumerated**: output settings x histories x shapes x kinds of plot; popen() is replaced by a file, so the real code writes the real stream. **Oracle**: a grammar of the stream (commands, blocks of data that the
plot commands announce) and the states of a run of a solver without output; the model of what gnuplot does with a stream is not trusted: every stream is fed to the installed gnuplot with `set table`, which prints the coordinates and values
it has understood (orientation of binary arrays, position in time), and these are compared with the states, too. Left out: gnuplot's reading of a plot of the initial state only in 1D (the axis of time is empty there).
Found, all fixed: outwindow ignored in 1D (data sent as commands), an endless loop for output intervals below 1, the state after the step plotted instead of the interpolated one. Known finding: 1D curves of later advance() calls are sent
without having been announced.'''
T['C18'] = '''**Enumerated**: output settings x histories of advance() calls, real files read back with the HDF5 library. **Oracle**: the set of steps from the definition of the parameters; contents from a run of a solver without output advanced step by step;
for adaptive steps the (linear, quadratic) interpolation of such a run; T and temp.xmf against the files present. Threaded runs: one thread writes while others wait; phases reordered and conflicts reversed as in C01.
Found: T lacked or had extra records with outstart/outwindow, a crash when the run ends before outstart, the variable's name ignored with one equation, a division by zero in a check of settings (all fixed);
T ends with the first advance() call (known finding: the file is written ahead, from nt of that call). Steps beyond the requested time (built with checked buffers): advance(0) with quadratic interpolation
and spans much below the step wrote beyond the name of the thread (fixed).'''
T['C19'] = '''**Enumerated**: shapes x precisions x record functions x solver families. **Oracle**: the single-precision value of the array passed, at the place given by its indices; for XDMF, each DataItem resolved to its dataset, with extents, rank and grid compared.
Found: div_3rd_dt missing from the recorded options (fixed); XDMF extents of auxiliary fields one too short (known finding: the reference data of the pbl tests contain them; the check goes on past it).'''
T['C05'] = '''**Enumerated**: numbers of processes and threads x solver families and options x message deliveries x schedules, on the real code compiled with USE_MPI; the processes are controlled threads of the harness, each with its own solver (real threads of
the library inside), on a stand-in for Boost.MPI (mock/mpi) that holds the messages: copied at once (eager), only after the receive is posted (rendezvous), or only when waited for (late). **Oracle**: one process with one thread. The stand-in itself judges every
call: length and type of the matched pair, buffers touched before completion, messages left over, collectives in the same order, calls of two threads at once under serialised threading; waiting for ever is a deadlock seen by the controlled runtime.
**Not covered**: real MPI libraries, parallel HDF5 output, processes in several address spaces. Found: 3D halos of vectors filled from halos of other threads before these were filled (THREAD_MULTIPLE; fixed).'''
T['C14'] = '''**Enumerated**: sets of faults put into a usable set-up, each history in a child process: construct, initialise, advance. **Oracle**: a set-up is rejected if and only if the set of faults is not empty (the faults are defined by the statement, e.g. the
divergence is recomputed from the edge values); an outcome of death by signal other than a failed assertion, or of a step taken, is a violation. Found: negative sizes corrupted memory before they were rejected (fixed).'''
T['C20'] = '''**Enumerated**: every file-system call of a run x kinds of fault, the run being repeated in a child process with open/write/close/truncate/mkdir/rename replaced by stand-ins (in the harness; nothing outside its scratch directory is touched).
**Oracle**: afterwards the directory is read back: records of completed steps are whole and right, at most one file is not; if no error came out of advance(), everything is there.
Found, fixed: HDF5 errors were swallowed by destructors (datasets' buffers, files left to be closed with the next record) and a completed record stayed unwritten until the next one; XDMF files were written without checking for errors.'''
