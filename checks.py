# What each check consists of: executables (see check.py), bounds and assumptions (copied into the evidence).
CHECKS = {}
def chk(pid, exes, bounds, assumptions, **kw):
    CHECKS[pid] = dict(exes=exes, bounds=bounds, assumptions=assumptions, **kw)
RT = ['threads run under a cooperative scheduler that owns every synchronisation operation; memory is sequentially consistent',
      'instrumentation (-fsanitize=thread call-backs) reports every access of the library code']
chk('C01', [dict(name='c01', src='c01.cpp', mode='mc', parts=9)],
    '56 configurations x teams 2..4; phases reordered ascending, descending, rotating (thorough: every permutation); every value-changing conflict reversed, up to a cap per team',
    RT + ['phases without value-changing conflicts commute'])

def backends(src, **kw):
    return [dict(name='%s_%s' % (src[:3], b), src=src, mode='mc', flags=['-DBACKEND=concurr::' + b, '-DBNAME="%s"' % b], **kw) for b in ('openmp', 'boost_thread', 'cxx11_thread')]
chk('C02', backends('c02.cpp'),
    'backends openmp, boost_thread, cxx11_thread against serial; thread counts 0..5 (environment, and omp_set_num_threads for OpenMP); 1D up to 6, 2D up to 4x4, 3D up to 5x5x4 points (quick: one depth per horizontal shape), cyclic and open; 3 orders of the team each; two-object histories of 3 advances; subdomain ranges for every extent 3..130 (2D, 3D: 66; thorough: 260, 130) and every team 1..16; all schedules of synchronisation operations with at most 1 (thorough: 2) departures from the default schedule for teams of 2 and 3',
    RT + ['malloc\'ed memory is pre-filled with NaN patterns, identically in the serial run'])

chk('C03', [dict(name='c03', src='c03.cpp', mode='mc')],
    'barriers of the cxx11_thread and boost_thread backends, driven directly: teams 1..4, 1..4 consecutive synchronisations, up to 2 spurious wake-ups; all interleavings (state caching until no new state appears); per-search limits are reported',
    RT + ['a thread is a deterministic function of the values it reads'])
chk('C04', backends('c04.cpp') + [dict(name='c04_serial', src='c04.cpp', mode='mc', flags=['-DBACKEND=concurr::serial', '-DBNAME="serial"'])],
    'backends serial, openmp, boost_thread, cxx11_thread; teams 1..4; runs of 3 steps in 1D, 2D, 3D and with an adaptive step (also one found by several attempts); the flag raised before and after every access to it (1D teams up to 2, thorough: also before every synchronisation operation of every thread), under 3 orders of the team',
    RT)
SEQ = ['the serial backend is driven through the public interface; other backends equal it (C01, C02)']
chk('C06', [dict(name='c06', src='c06.cpp', parts=5)],
    'every sequence of advance(k) calls adding up to 3..5 steps (thorough: one more), with up to 2 (thorough: 3) zero-length calls or reads in any place, over a matrix of solvers, options and boundary conditions in 1D, 2D and 3D',
    SEQ)
chk('C07', [dict(name='c07', src='c07.cpp', parts=5)],
    'all 924 interleavings of the life cycles {construct, initialise, advance, advance, read, destroy} of every unordered pair (including two of the same kind) of 28 kinds of solver objects in 1D, 2D and 3D, and of each kind with the same class under other parameters, against runs in fresh processes; each kind under 24 combinations of fill patterns for newly obtained and given-back memory, and after each other kind',
    SEQ, deps=['c07_kinds.hpp'])
chk('C10', [dict(name='c10', src='c10.cpp', parts=13, flags=['-DNDEBUG'])],
    'cyclic grids. 1D: all 3^5 fields x all 3^5 flows (5 distinct points), all impulse pairs on 9 points; 2D: all 2^12 fields on 4x3 points (quick: every 3rd on 3x4; every 3rd and 7th with third-order options) x 10 flows, all impulse pairs on 6x5 points x 21 flows; 3D: impulses and irregular fields on 5x3x3, 3x5x3, 3x3x5 points x 16 flows; about 120 sets of options, 1..6 passes, 1..5 steps; tolerance 1e-11 of the largest value (float: 3e-5); cases where the scheme itself amplifies rounding to the size of the difference are counted and left out',
    SEQ + ['the reference in mc/refmpdata.hpp is the documented scheme'])
chk('C08', [dict(name='c08', src='c08.cpp', parts=10)],
    '1D (5 distinct points): all 3^5 fields x all 3^5 flows, closed, open and cyclic ends; 2D: all 2^12 (2^9) fields, or all pairs of impulses, on 5x4 and 3x5 points x 6 flows (potentials and arbitrary); 3D: all impulses on 4x4x4 and 3x5x4 points x 6 flows; 76 combinations of options and boundary conditions (cyclic, open, rigid, ground/sky, polar, mixed); 1..4 passes, 1 and 3 steps, upwind filter; tolerance 2e-13 of the mass', SEQ)
chk('C09', [dict(name='c09', src='c09.cpp', parts=9)],
    '1D (5 distinct points): all 3^5 fields x all 3^5 flows; 2D: all 2^12 (2^9) fields, or all pairs of impulses and 40 irregular fields, on 5x4 and 4x6 points x 6..10 flows; 3D: all impulses on 4x4x4 and 3x5x4 points x 6..10 flows; 1 to 3 passes, 1 and 3 steps; 81 combinations of options and boundary conditions (cyclic, open, rigid, ground/sky, polar); flows that let out more than a cell contains are left out',
    SEQ + ['rounding: bounds are checked to 3e-13 of the largest value'])
chk('C11', [dict(name='c11', src='c11.cpp', parts=15, flags=['-DNDEBUG'])],
    'pairs of domains in 1D (6, 7 points), 2D (4x4, 5x6; polar 5x4, 7x3), 3D (3x4x4, 4x3x5; polar 5x4x3, 5x3x4) related by reflection, shift, exchange of axes, mirror image beyond walls, continuation across poles, or one being cut out of the other; 1D all fields of 3 values, 2D and 3D impulses at every point and irregular fields (thorough: all pairs of impulses, all fields of 2 values on up to 12 points); potential, arbitrary and uniform flows; 2 to 9 option sets per combination of boundaries, 1..3 (thorough 4) passes, 1 and 3 steps; tolerance 1e-12 of the largest value',
    SEQ)
chk('C12', [dict(name='c12', src='c12.cpp', parts=16, flags=['-DNDEBUG'])],
    'pairs of set-ups related by reflection along each direction, exchange of axes or embedding as a uniform slab (4 points, with and without flow along it); 1D 6 and 7 points, all fields of 3 values; 2D 5x4, 4x6; 3D 4x4x5, 4x5x4: impulses at every point, irregular fields (thorough: pairs of impulses, all fields of 2 values); ~45 option sets with prescribed flow, and source terms, advected velocities (absorbers), pressure solvers, shallow water and Boussinesq: irregular states and single deviations of every component at every point; 1..3 (4) passes, 1 and 3 steps; tolerance 1e-12 of the largest value (1e-7 with pressure solver)',
    SEQ, deps=[])

chk('C17', [dict(name='c17_' + b, src='c17.cpp', mode='mc', flags=['-DBACKEND=concurr::' + b, '-DBNAME="%s"' % b]) for b in ('openmp', 'cxx11_thread')],
    'max, min, sum, sum of products, plain and compensated, float and double; 1D 4 and 7, 2D 4x3 and 5x4, 3D 3x4x3 and 2x5x3 points; the extremum at every point of negative, mixed and positive fields, cancelling values 1e15 at pairs of points; teams 1..5 in 3 orders; all triples of consecutive operations; all schedules of the synchronisation operations of up to 18 (72) calls with one or two (three) departures; errors: (number of points) eps sum|x|, compensated 6 eps sum|x|',
    RT + ['sums are not available in 1D'])
chk('C15', [dict(name='c15', src='c15.cpp', parts=10, flags=['-DNDEBUG'])],
    '1D (5 distinct points), 2 equations: all 81 linear couplings with coefficients -1, 0, 1 x all 3^5 fields x schemes euler_a, euler_b, trapez, mixed; every mask of equations without sources; linear, nonlinear, gradient-dependent, time-dependent and constant sources with 2 and 3 equations in 1D, 2D, 3D; fixed and adaptive steps, delayed equations, density; histories of 1..4 steps split over advance() calls; tolerance 1e-11; cases growing beyond 1e3 are left out', SEQ)
chk('C22', [dict(name='c22', src='c22.cpp', parts=12, flags=['-DNDEBUG'])],
    'single-deviation fields of every velocity component at every point and irregular ones (1D: all 3^5 fields) x time steps, grid steps, coupling, splits of 4 steps x 32 combinations of scheme, advection options, absorber (none, explicit, implicit), adaptive step, layer-depth denominator, boundary conditions in 1D, 2D, 3D; the solvers built on top (3 pressure schemes, shallow water) for the Courant numbers; tolerance 1e-12 relative; cases growing beyond 1e3 are left out', SEQ)
chk('C21', [dict(name='c21', src='c21.cpp', parts=9, flags=['-DNDEBUG'])],
    "1..4 equations, every delayed mask, 4 patterns of scaling hints (exponents up to +-4); 1D (5 distinct points) all 3^5 fields x 12 flows for up to 3 equations, else deviations at every point; 2D 5x4, 4x4, 3D 4x4x3, 4x3x4; 48 combinations with advection options, density and boundary conditions; 3 steps; the hooks' order and the fields at each; tolerance 1e-13 (scaled: plus 4e-15 2^|exponent|)", SEQ)
chk('C16', [dict(name='c16', src='c16.cpp', parts=8, flags=['-DNDEBUG'])],
    'single deviations of every velocity component at every point and irregular states x 2 time steps and grids x tolerances 1e-10, 1e-5, 1e-2 x splits of 2 or 3 steps; schemes mr, cr, gcrk (1..4 sub-iterations), pc; source schemes; absorbers; density; cyclic, rigid, open, ground/sky and mixed ends, 2D 5x5, 6x5, 3D 4x4x4, 3x4x4; projection compared with a direct elimination of the reference operator', SEQ)
chk('C23', [dict(name='c23', src='c23.cpp', parts=8, flags=['-DNDEBUG'])],
    'shallow water: states of rest of 4 depths, currents, 1D (5..6 points) all fields of depths {0,.5,1,2} x velocities {-.5,0,.5}, 2D wet/dry patterns, single deviations of every component at every point and irregular states x 2 (3) gravities, cyclic, open, rigid and mixed ends; Boussinesq: states of rest over 27 (243) stratifications, single deviations of every component at every point and irregular states x schemes (explicit, implicit) x pressure solvers x absorbers x filter x density, 2D 5x4, 4x5 and 3D 4x4x4, 3x4x4; 2 to 4 steps in 1 or 2 calls; tolerance 1e-11 (water), 1e-8 (Boussinesq, pressure tolerance 1e-11)', SEQ)
chk('C24', [dict(name='c24', src='c24.cpp', parts=8, flags=['-DNDEBUG'])],
    '2D 4x4 to 5x6, 3D 3x4x4 to 4x4x4 points; 35 combinations of closure, differencing, density and ends (cyclic, rigid, open, ground/sky, mixed) x 3 (6) sets of grid steps and constants; every basis field of every component (and of temperature on 4 (28) stratifications), profiles over {-1,0,1}, 150..300 (4000) pairs of impulses, 100 (1500) irregular fields, multiples and moving frames of them, a fifth repeated after all; runs of 3 steps in 2 calls of shear profiles; tolerance 1e-11', SEQ)
chk('C13', [dict(name='c13', src='c13.cpp', parts=9, flags=['-DNDEBUG'])],
    '1D (5 distinct points) all 3^5 flows and fields; 2D, 3D potentials, jets, uniform and zero flows; 8 time-dependent flows; advected velocities; bounds .1, .5, .9 x initial steps .1, 1, 3 x 6 sequences of spans incl. 0 x 31 combinations of options, density, absorbers and ends; tolerance 1e-12', SEQ)
chk('C18', [dict(name='c18', src='c18.cpp', parts=7, hdf5=True, libs=['-lboost_filesystem']), dict(name='c18p', src='c18p.cpp', opt='-O2', flags=['-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=3']), dict(name='c18t', src='c18t.cpp', mode='mc', parts=2, hdf5=True, libs=['-lboost_filesystem'])], 'fixed steps: every outfreq 1..4 x outstart 0, 1, 2 times it x outwindow 1..outfreq x every sequence of advance() calls adding up to 5 (xdmf 4; thorough 7, 6) steps and ones with advance(0); adaptive steps: Courant bounds .02..0.4 x output intervals .25..3 x 6 sequences of spans, linear and quadratic interpolation (combinations with more than one record within a step left out); 1D, 2D, 3D, HDF5 and XDMF, 1 and 2 equations, default, named and selected variables; steps beyond the requested time with names of threads of 1..15 characters; teams 2..3 (thorough 4) with reordered phases and conflicting accesses reversed', SEQ, deps=['../mc/h5.hpp'])
chk('C19', [dict(name='c19', src='c19.cpp', parts=9, hdf5=True, libs=['-lboost_filesystem'])], 'all shapes with extents 3..9 in 2D, 3..6 in 3D, 3..27 in 1D x float, double x with and without density x every record_* function, timestep and const files, HDF5 and XDMF; all 2^13 sets of options by name; the recorded parameters of every solver family', SEQ, deps=['../mc/h5.hpp'])
chk('C20', [dict(name='c20', src='c20.cpp', parts=4, hdf5=True, libs=['-lboost_filesystem'])], '8 runs of 2 to 5 steps (1D, 2D, 3D, HDF5, XDMF, with auxiliary data), each repeated once per file-system call (up to 135) and per kind of fault: killed before it, killed with it half done, it fails with ENOSPC or EIO, it and all later writes fail (thorough: then also killed at any later call)', SEQ, deps=['../mc/h5.hpp'])
chk('C25', [dict(name='c25', src='c25.cpp', parts=4, libs=['-lboost_iostreams', '-lboost_filesystem', '-lboost_system'])], 'every outfreq 1..3 (thorough 4) x outstart 0, 1, 2 times it x outwindow 1..outfreq x histories of up to 5 (thorough 7) steps x splot, plot, image, lines, surfaces x shapes 3..8 (1D), 3..5 squared (2D) x 1 and 2 equations, all selections of variables, float and double; adaptive steps: Courant bounds .02...4 x output intervals .25..3 x 8 sequences of spans; every setting alone, in pairs and all together; every stream read by the real gnuplot', SEQ)
chk('C14', [dict(name='c14', src='c14.cpp', parts=8, hdf5=True, flags=['-fopenmp'], libs=['-lboost_filesystem', '-lboost_thread', '-lboost_system'])], 'every subset of up to 4 simultaneous faults (thorough: of all) among {each grid size, number of passes, divergent flow, dt, di, dj, dk, eta, smg_c, Tht_ref, pc_iters} x bogus values 0, -1, -3 for 13 solver families (1D-3D), plus the subset without faults; all grid sizes -40..40 (1D), -5..7 squared (2D), -2..5 cubed (3D); memory shared by teams of 1 to 8 of all sizes; teams of 1 to 8 x shapes x 3 thread backends; every edge of the flow x both signs x 0.5, 2, 1000 tolerances for 3 tolerances, cyclic, open and mixed ends, density, float, adaptive steps, divergent-flow option; all array accessors, before and after a step; 4^4 launcher environments; output intervals x starts x 4 kinds of output directory; every subset of user hooks that do not call the inherited ones x 3 histories', SEQ)

chk('C05', [dict(name='c05s', src='c05.cpp', mode='mcplain', parts=8, inc=['mock/mpi'], flags=['-DUSE_MPI']), dict(name='c05m', src='c05.cpp', mode='mcplain', parts=8, inc=['mock/mpi'], flags=['-DUSE_MPI', '-DLIBMPDATAXX_MPI_THREAD_MULTIPLE'])], '1 to 4 processes (threads of the harness on a stand-in for MPI that is checked at every call) x 1 to 3 threads each x 34 combinations of solver, options, boundary conditions and number of dimensions x builds for serialised and for multiple threading x 3 deliveries of messages (copied at once, only when the receiver has asked, only when it is waited for) x all priority orders of up to 4 threads, rotations and reversals of more (thorough: of up to 5), and departures from the default schedule at library and MPI calls up to 1 (thorough 2), capped', RT + ['processes are threads of one address space with an in-process stand-in for Boost.MPI (mock/mpi): messages between two processes with one tag stay in order, receive buffers are undefined until waited for', 'solvers with sums over the domain are compared to 1e-5 of the largest value'])
