#!/usr/bin/env python3
# writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),obs=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(obs),hook_needed=hook)))
L='libmpdata++/'
p('C01','Threaded runs are bit-identical to the serial run under every interleaving',
 'For every solver, set of options, boundary conditions and grid, the fields, time and extrema a user reads after advance() are bit for bit those of the single-threaded run, for every number of subdomains and whatever way the threads interleave. Within a run no thread\'s result may depend on whether another thread\'s unsynchronised access came before or after its own.',
 ['schedules','configurations'],'all interleavings of the team between synchronisation points (reduced by a value-aware independence argument to one representative per class, conflicting accesses being reordered explicitly), x team sizes 1..4 x solver/option/boundary-condition/grid matrix in 1D, 2D and 3D',
 'The test suite runs one uncontrolled schedule per test, with whatever number of cores the machine has, and compares against stored statistics with tolerances; a missing barrier or a range computed one cell short shows up only under a rare interleaving or a team size the tests never use.',
 [L+'solvers/detail/solver_common.hpp',L+'solvers/detail/solver_1d.hpp',L+'solvers/detail/solver_2d.hpp',L+'solvers/detail/solver_3d.hpp',L+'concurr/detail/sharedmem.hpp',L+'solvers/detail/mpdata_osc_2d.hpp',L+'solvers/detail/mpdata_fct_3d.hpp',L+'solvers/mpdata_rhs_vip.hpp'],
 [('barriers around every halo exchange, time-level cycling and reduction',L+'solvers/detail/solver_*.hpp, '+L+'concurr/detail/sharedmem.hpp'),('slab decomposition with rank-dependent staggered ranges',L+'formulae/domain_decomposition.hpp, '+L+'solvers/detail/mpdata_osc_*.hpp'),('two-step, slice-ordered reductions',L+'concurr/detail/sharedmem.hpp sum/min/max')],
 [('mem->psi, mem->GC, mem->tmp','fields shared by the team',L+'concurr/detail/sharedmem.hpp'),('mem->n','shared time-level index',L+'concurr/detail/sharedmem.hpp')],
 ['advectee()','advector()','time()','min()','max()'])
p('C02','Every backend terminates and covers the grid for any team size and grid shape',
 'For each of the serial, OpenMP, Boost and C++11 thread backends, any requested thread count and any grid shape the serial backend can advance, constructing a solver either throws or yields an object for which every advance() call returns with every grid cell advanced exactly as the serial backend advances it. The team that runs is the one the object was built for, whatever other solvers were constructed in between and in whatever order they are advanced.',
 ['schedules','configurations','histories'],'all thread-count settings 1..5 x all grid shapes up to 4 (1D: up to 6) per dimension x 1D/2D/3D x 4 backends x construct/advance histories of up to two objects, schedules of the synchronisation operations enumerated up to a preemption bound',
 'Tests use grids much larger than the core count, the default thread count and one object at a time; the combinations in which barrier population, subdomain count and running team differ are never built.',
 [L+'concurr/openmp.hpp',L+'concurr/boost_thread.hpp',L+'concurr/cxx11_thread.hpp',L+'concurr/serial.hpp',L+'concurr/threads.hpp',L+'concurr/detail/concurr_common.hpp',L+'formulae/domain_decomposition.hpp'],
 [('team size clipped to the number of slabs',L+'concurr/{openmp,boost_thread,cxx11_thread}.hpp mem_t::size'),('barrier population equals the number of subdomains',L+'concurr/*.hpp'),('number of subdomains checked against the grid',L+'concurr/detail/sharedmem.hpp')],
 [('algos','one solver per subdomain',L+'concurr/detail/concurr_common.hpp'),('barrier count','how many arrivals release the team',L+'concurr/*.hpp')],
 ['advance() returns','advectee() equals the serial one','exception at construction'])
p('C03','The thread barrier separates generations under every interleaving',
 'No thread leaves the n-th synchronisation of the C++11 (or Boost) thread backend before every thread of the team has arrived at it, and every thread eventually leaves it. This holds for any number of consecutive synchronisations and in the presence of spurious wake-ups.',
 ['schedules'],'all interleavings of mutex and condition-variable operations, including wake-up orders and spurious wake-ups, for teams of 1..4 threads and 1..4 generations, explored with state caching until no new state appears',
 'A test runs one schedule out of very many and cannot provoke a spurious wake-up or a thread re-entering the barrier before the slowest sleeper of the previous generation has woken.',
 [L+'concurr/cxx11_thread.hpp'],
 [('generation counter tested in a loop under the mutex',L+'concurr/cxx11_thread.hpp detail::barrier::wait')],
 [('m_generation, m_count','barrier state',L+'concurr/cxx11_thread.hpp')],['barrier::wait() return order'])
p('C04','A stop request at any moment stops all threads at one common time step',
 'If the stop (panic) flag is raised at any moment while advance() is running, advance() returns without hanging, and the state read afterwards is the one reached after some whole number of completed time steps, the same for all subdomains. At most the step in progress when the flag was raised is still completed.',
 ['schedules','crash_points'],'the flag raised before every scheduling point (each synchronisation operation of each thread and each access to the flag) of a multi-step run x teams of 1..4 x schedules of the team around the test of the flag',
 'The test suite never raises the flag; a signal arrives between two threads\' tests of the flag only by a rare accident.',
 [L+'solvers/detail/solver_common.hpp',L+'concurr/detail/sharedmem.hpp',L+'concurr/detail/concurr_common.hpp'],
 [('flag tested once per step by every thread after a barrier',L+'solvers/detail/solver_common.hpp solve()')],
 [('mem->panic','stop request',L+'concurr/detail/sharedmem.hpp')],['advance() returns','advectee()','time()'])
p('C05','Distributed-memory runs equal the single-process run and never deadlock',
 'When the grid is split among MPI processes (each with at least as many points as the halo is wide), the gathered fields, the time and the extrema every process reads are those of a single process run - bit for bit, except in solvers that sum over the domain (pressure), where the order of the sums may show - for every number of processes, every number of threads per process and every message timing. No process or thread waits forever, every message sent is received by the matching receive with matching length, and with serialised threading no two threads of a process are inside an MPI call at once.',
 ['schedules','configurations'],'1..4 processes x 1..3 threads x solver/option/boundary-condition/grid matrix in 1D, 2D and 3D x rendezvous and eager message delivery x process scheduling orders enumerated up to a preemption bound',
 'The MPI tests run three processes with one grid each under one uncontrolled timing, most with tolerances; buffered sends hide deadlocks.',
 [L+'concurr/detail/distmem.hpp',L+'bcond/detail/remote_common.hpp',L+'bcond/detail/remote_3d_common.hpp',L+'bcond/remote_1d.hpp',L+'bcond/remote_2d.hpp',L+'bcond/remote_3d.hpp',L+'concurr/detail/concurr_common.hpp',L+'concurr/detail/sharedmem.hpp'],
 [('paired isend/irecv with direction tags and even/odd ordering',L+'bcond/detail/remote_common.hpp, '+L+'solvers/detail/solver_common.hpp set_bcs'),('collective reductions by the master thread between barriers',L+'concurr/detail/sharedmem.hpp'),('gather of contiguous slabs',L+'concurr/detail/distmem.hpp get_global_array')],
 [('halo buffers','per-direction send/receive buffers',L+'bcond/detail/remote_common.hpp')],['advectee_global()','min()','max()','sum'])
p('C06','Splitting advance() into any sequence of calls does not change the solution',
 'For a fixed time step, advancing by n steps in any sequence of advance() calls (including zero-length ones and with accessor reads in between) yields bit for bit the fields, time and extrema of a single advance(n). The number of steps taken equals the sum of the arguments.',
 ['histories','configurations'],'all compositions of n<=5 steps (with zero-length calls and reads interleaved) x solver/option matrix in 1D, 2D, 3D, checked as a transition system whose state is the complete observable field set',
 'Tests call advance() once, or several times without comparing with the one-call run.',
 [L+'solvers/detail/solver_common.hpp',L+'concurr/detail/concurr_common.hpp',L+'solvers/mpdata_rhs.hpp',L+'solvers/mpdata_rhs_vip.hpp'],
 [('target step counted from the steps already done, one-off initialisation guarded by the step counter',L+'solvers/detail/solver_common.hpp solve()')],
 [('timestep, time, n','progress of the run',L+'solvers/detail/solver_common.hpp')],['advectee()','time()'])
p('C07','Solver objects are independent of one another',
 'What one solver object computes does not depend on which other solver objects were constructed, advanced, read or destroyed before or in between, nor on the previous contents of the memory it was given.',
 ['histories','configurations'],'all interleavings of the life-cycle operations {construct, initialise, advance, read, destroy} of two objects (same and different types) plus memory pre-fill patterns, over a solver/option matrix',
 'Tests create one object per process or several strictly one after another, and on memory that happens to be zero.',
 [L+'concurr/detail/concurr_common.hpp',L+'concurr/detail/sharedmem.hpp',L+'solvers/detail/solver_common.hpp',L+'solvers/detail/mpdata_common.hpp',L+'bcond/detail/bcond_common.hpp'],
 [('all state held in per-object shared memory; scratch arrays keyed per source file within the object',L+'concurr/detail/sharedmem.hpp tmp')],(),['advectee() of each object'])
p('C08','Advection conserves the advected mass',
 'With cyclic (or, in the normal direction, impermeable) boundaries one step of homogeneous advection leaves the G-weighted sum of each advected field unchanged up to rounding, for every field, every Courant number field and every advection option. With open boundaries and all boundary Courant numbers zero the sum is conserved too; where the flow crosses an open boundary, the change over a one-pass step equals the boundary flux balance.',
 ['inputs','configurations','histories'],'all fields over a small value alphabet on small grids x all Courant fields over an alphabet (streamfunction-generated or arbitrary with the divergent-flow option) x all option sets x number of corrective iterations 1..3 x 1..3 steps, in 1D, 2D and 3D',
 'Tests sample a handful of smooth fields and flows and compare statistics with tolerances.',
 [L+'formulae/donorcell_formulae.hpp',L+'solvers/detail/mpdata_osc_1d.hpp',L+'solvers/detail/mpdata_osc_2d.hpp',L+'solvers/detail/mpdata_osc_3d.hpp',L+'formulae/mpdata/formulae_mpdata_fct_2d.hpp',L+'solvers/detail/solver_2d.hpp'],
 [('flux form: one flux value per cell edge shared by both neighbours, exchanged at cyclic edges',L+'formulae/donorcell_formulae.hpp, xchng_flux in '+L+'solvers/detail/solver_*.hpp')],(),['sum(advectee()*g_factor())'])
p('C09','Advection preserves sign, and with FCT creates no new extrema',
 'For non-negative fields and Courant numbers within the stability bound, the basic scheme (first-order, or with corrective iterations, without the variable-sign options) never yields a negative value beyond rounding. With flux-corrected transport in a non-divergent flow no value leaves the range spanned by the cell and its neighbours at the beginning of the step, for any field, any options and any number of steps.',
 ['inputs','configurations','histories'],'all fields over a small alphabet (including isolated spikes, zeros and mixed signs) on small grids x Courant fields over an alphabet up to the stability limit x all option sets that include/omit fct x iterations 1..3 x up to 3 steps, in 1D, 2D and 3D',
 'Tests check minima for a few smooth cones; a limiter error shows only for particular patterns of neighbours and signs of velocity.',
 [L+'solvers/detail/mpdata_fct_1d.hpp',L+'solvers/detail/mpdata_fct_2d.hpp',L+'solvers/detail/mpdata_fct_3d.hpp',L+'formulae/mpdata/formulae_mpdata_fct_1d.hpp',L+'formulae/mpdata/formulae_mpdata_fct_2d.hpp',L+'formulae/mpdata/formulae_mpdata_fct_3d.hpp',L+'formulae/mpdata/formulae_mpdata_common.hpp'],
 [('extrema taken before the step, beta coefficients limiting in- and outflow of each cell',L+'formulae/mpdata/formulae_mpdata_fct_*.hpp')],(),['advectee()'])
p('C10','One step equals an independent scalar evaluation of the documented MPDATA scheme',
 'For every input field, Courant-number field and density field, the result of one or more steps equals that of a direct cell-by-cell evaluation of the published MPDATA formulae (donor-cell, antidiffusive pseudo-velocities, infinite-gauge, third-order terms, divergent-flow terms, flux-corrected transport) up to rounding. The enabled options select exactly the documented variant; options that only change how the arithmetic is done (pfc, npa, khn, unit-valued G) do not change the result beyond rounding and regularisation.',
 ['inputs','configurations','histories'],'all fields and Courant fields over small alphabets on small 1D, 2D and 3D grids (cyclic) x option sets x iterations 1..3 x 1..2 steps, real code against an independently written reference',
 'The tests compare error norms of a few analytic flows with stored values; a slip in a cross term, an index offset in one direction or one option combination alters them below tolerance or is not run at all.',
 [L+'formulae/mpdata/formulae_mpdata_1d.hpp',L+'formulae/mpdata/formulae_mpdata_2d.hpp',L+'formulae/mpdata/formulae_mpdata_3d.hpp',L+'formulae/mpdata/formulae_mpdata_psi_2d.hpp',L+'formulae/mpdata/formulae_mpdata_hot_2d.hpp',L+'formulae/mpdata/formulae_mpdata_dfl_2d.hpp',L+'formulae/donorcell_formulae.hpp',L+'opts.hpp'],
 [('option-dispatched formulae composed into antidiffusive velocities',L+'formulae/mpdata/*.hpp')],(),['advectee()'])
p('C11','Boundary conditions act as documented, identically on every side',
 'With cyclic boundaries a shifted initial state gives the equally shifted solution; open boundaries let inflow carry the edge value in and signal leave without altering the interior; rigid and ground/sky boundaries admit no flux and mirror the interior; polar boundaries connect opposite longitudes. Each boundary treats its left and right side as mirror images of one another, and acts alike in each dimension it supports (where open ends of one dimension do not meet ends of another kind).',
 ['inputs','configurations','histories'],'all fields over a small alphabet x all shifts, reflections and axis permutations x boundary types per side and dimension x option sets x 1..2 steps in 1D, 2D and 3D',
 'Tests run one flow direction through one boundary; an error on one side, for one sign of velocity, or with a wider halo stays unseen.',
 [L+'bcond/cyclic_1d.hpp',L+'bcond/cyclic_2d.hpp',L+'bcond/cyclic_3d.hpp',L+'bcond/open_1d.hpp',L+'bcond/open_2d.hpp',L+'bcond/open_3d.hpp',L+'bcond/rigid_2d.hpp',L+'bcond/rigid_3d.hpp',L+'bcond/polar_2d.hpp',L+'bcond/polar_3d.hpp',L+'bcond/gndsky_2d.hpp',L+'bcond/gndsky_3d.hpp',L+'bcond/detail/bcond_common.hpp'],
 [('halo filling before each use of neighbours',L+'bcond/*.hpp, xchng_* in '+L+'solvers/detail/solver_*.hpp')],(),['advectee()','mass balance'])
p('C12','Solutions commute with reflections, axis permutations and dimension reduction',
 'Reversing the direction of an axis, permuting the axes, or embedding a lower-dimensional problem as a uniform slab of a higher-dimensional one transforms the solution accordingly, up to rounding, for every field, flow and set of options (embedding: without flow along the slab where the limiter or a divergent flow is involved, and with averages in denominators only where they do not span the added dimension).',
 ['inputs','configurations'],'all fields and flows over small alphabets x every reflection/permutation of 2D and 3D (including 1D in 2D in 3D embeddings) x option sets x boundary types x 1..2 steps',
 'Tests use fixed orientations; formulae are written out separately per dimension and direction, so a slip in one direction survives.',
 [L+'formulae/idxperm.hpp',L+'formulae/mpdata/formulae_mpdata_2d.hpp',L+'formulae/mpdata/formulae_mpdata_3d.hpp',L+'formulae/mpdata/formulae_mpdata_gc_3d.hpp',L+'formulae/mpdata/formulae_mpdata_fdiv_3d.hpp',L+'solvers/detail/solver_3d.hpp'],
 [('cyclic index permutation in direction-templated formulae',L+'formulae/idxperm.hpp')],(),['advectee()'])
p('C13','Adaptive time stepping keeps the Courant number bounded and lands past the end',
 'With adaptive time steps every step is taken with a maximal Courant number (half the sum over directions of the moduli of the sums of the two edge values of a cell, over the density factor) not above the requested bound, and for a steady non-zero flow equal to the bound; a zero flow leaves the time step as it was. Time grows by the length of each step, advance(t) stops at the first step boundary at or beyond the requested span (a zero span takes no step), and the fields are those of fixed-step advection with the Courant numbers each step was taken with, for any sequence of advance() calls, prescribed, time-dependent or advected flows.',
 ['inputs','configurations','histories'],'all steady flows over an alphabet (1D: all, 2D and 3D: potentials, jets, uniform), time-dependent flows given by user code, advected velocities x bounds x initial time steps x sequences of up to 3 advance() spans x 1D, 2D, 3D x options, density, absorbers',
 'One smooth scenario is tested against a stored reference.',
 [L+'solvers/detail/solver_common.hpp',L+'solvers/detail/solver_1d.hpp',L+'solvers/detail/solver_2d.hpp',L+'solvers/detail/solver_3d.hpp'],
 [('rescaling of dt and advector by max_courant/cfl',L+'solvers/detail/solver_common.hpp solve(), hook_ante_loop()')],[('dt','current time step',L+'solvers/detail/solver_common.hpp')],['time()','advectee()','Courant number seen by user hooks'])
p('C14','Unusable set-ups are rejected, usable ones are accepted',
 'With assertions on, a non-positive grid size or number of passes, more subdomains than grid points, an initial advector whose divergence exceeds the tolerance anywhere (2D, 3D, without the divergent-flow option), an access to an array the options do not provide, a missing grid step or time step, viscosity, Smagorinsky constant, reference temperature or pressure iteration count, unusable output settings and a launcher that starts several processes of a build without MPI are each reported (exception or failed assertion) before any step is taken and with nothing outside the arrays written, alone or together with others; hooks of the user that leave out the inherited ones are reported at the latest when the object is destroyed. A set-up free of these faults is never rejected.',
 ['inputs','configurations'],'all single-edge perturbations of non-divergent flows on small grids (per edge, sign and magnitude either side of the tolerance) in 2D and 3D x all accessor calls x parameter omissions over a solver matrix',
 'Only one rejection (an output failure) is exercised.',
 [L+'solvers/detail/solver_common.hpp',L+'solvers/detail/solver_2d.hpp',L+'solvers/detail/solver_3d.hpp',L+'solvers/mpdata_rhs.hpp',L+'solvers/mpdata_rhs_vip.hpp',L+'concurr/detail/sharedmem.hpp'],
 [('run-time sanity checks',L+'solvers/**, '+L+'concurr/detail/sharedmem.hpp')],(),['exceptions'])
p('C15','Right-hand-side schemes integrate source terms as documented',
 'For every source term the explicit-backward, explicit-forward and trapezoidal schemes apply it once per step before advection, after it, or half before and half after, with the documented arguments and dt, so that with no flow each equals its scalar recurrence and with flow a uniform field follows it. Equations declared to have no source are exactly those of homogeneous advection.',
 ['inputs','configurations','histories'],'all initial values, coefficients and time steps over alphabets x schemes x number of equations x no-source masks x histories of up to 4 steps split over advance() calls x 1D, 2D, 3D x teams 1..2',
 'One oscillator with one set of parameters is tested.',
 [L+'solvers/mpdata_rhs.hpp'],[('two-stage update around the advection step',L+'solvers/mpdata_rhs.hpp hook_ante_step/hook_post_step')],[('rhs','source-term arrays',L+'solvers/mpdata_rhs.hpp')],['advectee()'])
p('C16','The pressure solvers deliver a flow whose divergence is below tolerance',
 'After every step (and after the initial projection) the divergence of the (density-weighted) velocity field is within the tolerance the user asked for (tolerance over the time step), normal velocities at the ends of non-cyclic directions keep their prescribed values (zero at walls), and an already solenoidal field is left unchanged, for every solver variant, boundary combination, absorber and initial velocity field. What is subtracted is the gradient of a pressure, so all variants agree with the exact projection within tolerance, and every step is the documented trapezoidal (or Euler) step.',
 ['inputs','configurations','histories'],'all initial velocity fields over a small alphabet on small 2D grids (and impulse-basis fields in 3D) x pressure schemes x boundary combinations x 1..2 steps',
 'A few flows are tested through end results.',
 [L+'solvers/mpdata_rhs_vip_prs.hpp',L+'solvers/detail/mpdata_rhs_vip_prs_common.hpp',L+'solvers/detail/mpdata_rhs_vip_prs_mr.hpp',L+'solvers/detail/mpdata_rhs_vip_prs_cr.hpp',L+'solvers/detail/mpdata_rhs_vip_prs_gcrk.hpp',L+'formulae/nabla_formulae.hpp'],
 [('iterative minimisation of the residual divergence',L+'solvers/detail/mpdata_rhs_vip_prs_*.hpp')],(),['divergence of advectee(u,v,w)'])
p('C17','Reductions give the exact extremum and an order-independent sum',
 'The global minimum and maximum a user or solver obtains are the true extrema over the whole domain (halos excluded), and global sums (2D and 3D) are the same for every team size and close to the exact sum, with compensated summation at least as accurate as promised. This holds wherever in the domain the extreme value sits, and for consecutive reductions without interference.',
 ['inputs','schedules','configurations'],'every placement of extremal values x 1D, 2D, 3D grids x teams 1..4 x sequences of up to 3 reductions; all permutations of cancellation-prone summand sets up to 6 values for compensated sums',
 'Only one sum is tested, and that test is disabled.',
 [L+'concurr/detail/sharedmem.hpp',L+'kahan_reduction.hpp',L+'concurr/detail/concurr_common.hpp'],
 [('per-thread partial results in a shared array between barriers',L+'concurr/detail/sharedmem.hpp')],[('xtmtmp, sumtmp','partial results',L+'concurr/detail/sharedmem.hpp')],['min()','max()','sum seen by solvers'])
p('C18','Output is written at exactly the requested steps, with matching time coordinate',
 'For every output frequency, start, window and every sequence of advance() calls, the set of record files equals the set of time steps the parameters select (the initial state always included), each record\'s contents are the state at that step, and the time coordinate (for the records of the first advance() call) and the temporal index describe exactly the records present. With adaptive steps no longer than the output interval, there is one record per multiple of the interval, interpolated in time to it (once the one further step that quadratic interpolation needs has been made; such steps beyond the requested time are safe for any span and keep the progress shown in the thread names within 0..100%). Writing output never changes the computed solution.',
 ['histories','configurations'],'all outfreq 1..4 x outstart multiples x outwindow 1..outfreq x histories (compositions of up to 5 steps) x HDF5/XDMF x 1D, 2D, 3D x teams 1..3; adaptive-step runs over an alphabet of flows and frequencies',
 'Tests use one frequency with one advance() call and look at a few files.',
 [L+'output/detail/output_common.hpp',L+'output/hdf5.hpp',L+'output/hdf5_xdmf.hpp',L+'output/detail/xdmf_writer.hpp'],
 [('modular selection of steps in the post-step hook',L+'output/detail/output_common.hpp'),('coordinate computed ahead from the parameters',L+'output/hdf5.hpp start()')],(),['files in outdir'])
p('C19','Everything written to output reads back as the value that was computed',
 'Every variable, coordinate, density factor, auxiliary, surface and halo-including array written to the output files reads back, cell by cell and correctly oriented, as the single-precision value of what the solver held when it was recorded, whatever the grid shape, number of dimensions, precision and team size. Recorded parameters equal the ones the solver was built with.',
 ['inputs','configurations'],'all grid shapes up to 6 (2D: 9) per dimension x 1D, 2D, 3D x float/double x all record functions with distinct values in every cell',
 'Tests do not read output back, except for one plot comparison.',
 [L+'output/hdf5.hpp',L+'output/hdf5_xdmf.hpp',L+'output/detail/xdmf_writer.hpp',L+'output/gnuplot.hpp'],
 [('copy to contiguous C-ordered buffers and hyperslab writes',L+'output/hdf5.hpp')],(),['files in outdir'])
p('C20','A crash or write failure never damages records already completed',
 'Whenever the process dies, every record completed before that moment (the step that writes it has ended) is a readable, complete file with the right contents and is never touched again, and at most the record being written is incomplete (the XDMF index temp.xmf, rewritten with each record, may be). A failing write surfaces as an exception or error to the caller instead of silently dropping data.',
 ['crash_points','fault_sequences'],'the process killed before each file-system call of a multi-record run, and each file-system call failing once (ENOSPC, EIO) or all from it on, for 1D, 2D and 3D HDF5 and XDMF output',
 'Tests never interrupt a run; one covers an unwritable directory.',
 [L+'output/hdf5.hpp',L+'output/hdf5_xdmf.hpp',L+'output/detail/xdmf_writer.hpp'],
 [('one file per record, closed when the next one is opened',L+'output/hdf5.hpp')],(),['files in outdir after the crash','exceptions'])
p('C21','Each equation is advected independently of the others, its scaling and its delay',
 'The solution for one advected field is the same whether it is advected alone or among others, in whatever position, with whichever fields advected in the delayed part of the step, and with any power-of-two scaling hint (up to rounding and the scheme\'s small regularising constants for scaling). Per-equation options (delay, no source, scaling) affect only the equations they name.',
 ['configurations','inputs','histories'],'all delay masks for up to 4 equations x positions x scaling hints -4..4 x option sets x fields over an alphabet x 1..3 steps x 1D, 2D, 3D x teams 1..2',
 'Two fixed delay masks and one scaling are tested.',
 [L+'solvers/detail/solver_common.hpp',L+'opts.hpp',L+'concurr/detail/sharedmem.hpp'],
 [('per-equation time levels and one shared level cycled after the last equation',L+'solvers/detail/solver_common.hpp cycle(), is_last_eqn()')],[('n[e]','per-equation time level',L+'solvers/detail/solver_common.hpp')],['advectee(e)'])
p('C22','Velocity-coupled solvers use the extrapolated flow and absorb as prescribed',
 'When velocities are themselves advected, the advector used in each step is the documented second-order temporal extrapolation and half-way average of the velocities (scaled by dt and the grid step, and G), so every step equals homogeneous advection with those Courant numbers between the documented halves of the source terms (layer-depth denominator included: zero velocity where the depth is below the threshold); the absorber relaxes velocities toward the prescribed state with the prescribed coefficient (explicitly or implicitly, as chosen) and leaves them unchanged where it is zero.',
 ['inputs','configurations','histories'],'all uniform and piecewise flows over an alphabet x dimension 1..3 x velocity-extrapolation options x absorber coefficient patterns x histories of up to 3 steps x teams 1..2',
 'An absorber run and a few flows are tested against one tolerance.',
 [L+'solvers/mpdata_rhs_vip.hpp',L+'solvers/detail/mpdata_rhs_vip_common.hpp'],
 [('stashed velocities, extrapolation and interpolation to edges',L+'solvers/detail/mpdata_rhs_vip_common.hpp'),('implicit relaxation',L+'solvers/mpdata_rhs_vip.hpp')],(),['advectee()','advector()'])
p('C23','Shallow-water and Boussinesq solvers keep their equilibria and conserve mass',
 'A fluid at rest (flat surface; environmental potential temperature of any stratification) stays at rest for ever; the layer depth stays non-negative (while no cell lets out more than it holds) and its total is conserved for every initial state with cyclic boundaries, dry cells included. Every step of the shallow-water and of the Boussinesq solvers (explicit and implicit potential temperature, its absorber, heat flux, buoyancy filter, velocity absorbers) is the documented trapezoidal step around homogeneous advection and projection.',
 ['inputs','configurations','histories'],'all depth/momentum fields over small alphabets on small 1D and 2D grids, all rest states over alphabets, x options x 1..3 steps; Boussinesq explicit and implicit variants',
 'Two drops and one thermal are tested.',
 [L+'solvers/shallow_water.hpp',L+'solvers/boussinesq.hpp',L+'solvers/detail/boussinesq_common.hpp',L+'solvers/detail/boussinesq_expl.hpp',L+'solvers/detail/boussinesq_impl.hpp'],
 [('pressure-gradient forcing and well-balanced depth gradient',L+'solvers/shallow_water.hpp')],(),['advectee()'])
p('C24','Sub-grid mixing forces are the divergence of the documented stress',
 'The force that the viscous (dns) and Smagorinsky (smg, smgani; with and without stratification) closures add is, for every velocity and temperature field, the divergence of viscosity times deformation with the chosen differencing (normal, Pade, compact), density weighting, wall, ground-drag and surface-heat-flux conditions, whatever was computed before; the heating is the divergence of the corresponding heat flux. So it vanishes for uniform flow, conserves momentum on cyclic domains, does not feed energy, is linear in velocity for constant viscosity and quadratic for the Smagorinsky one, and is finite for every finite state. Each time step applies it once.',
 ['inputs','configurations','histories'],'every basis field of every velocity component and of temperature on every stratification of a set, all profiles over {-1,0,1} along every direction, pairs of impulses, irregular fields, each partly repeated in another order x closures x differencing x boundary combinations (cyclic, rigid, open, ground/sky) x density x grid steps and constants, 2D and 3D; runs of 3 steps of every shear profile',
 'Three end results are compared with stored or analytic values, all on cyclic or one ground/sky domain; plain Smagorinsky closures, Pade and rigid ends are not tested at all.',
 [L+'solvers/mpdata_rhs_vip_prs_sgs.hpp',L+'solvers/detail/mpdata_rhs_vip_prs_sgs_common.hpp',L+'solvers/detail/mpdata_rhs_vip_prs_sgs_dns.hpp',L+'solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp',L+'solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp',L+'solvers/detail/boussinesq_sgs_common.hpp',L+'formulae/stress_formulae.hpp'],
 [('stress tensor from deformation, divergence in flux form',L+'formulae/stress_formulae.hpp'),('halos of stress by boundary condition',L+'bcond/*.hpp fill_halos_sgs_*')],(),['vip_rhs and hflux_frc seen by a derived solver','advectee()'])
p('C25','The plots hold exactly what was computed, where it was computed',
 'For every output frequency, start and window, history of advance() calls, selection of variables, kind of plot and grid shape, the stream sent to gnuplot is one gnuplot understands and holds one curve (1D; for the records of the first advance() call) or one plot with a file of its own (2D) per selected variable and record, in order, at the right coordinates and (1D) the time of the record, with the values of the field at that record to the printed precision (with adaptive steps interpolated to the record). Every setting of the user appears as given, unsupported combinations are reported, and plotting never changes the solution.',
 ['histories','configurations'],'all outfreq 1..4 x outstart multiples x outwindow 1..outfreq x histories of up to 5 steps x kinds of plot x selections of variables x shapes 3..8 (1D), 3..5 squared (2D) x float/double; adaptive steps over flows, bounds, intervals and spans; every setting alone, in pairs and together; every stream parsed and fed to the real gnuplot',
 'A few plots of one run each are compared with stored images; windows, adaptive steps and non-square grids are not.',
 [L+'output/gnuplot.hpp',L+'output/detail/output_common.hpp'],
 [('curves announced ahead of the data blocks',L+'output/gnuplot.hpp start()'),('inline data blocks',L+'output/gnuplot.hpp record()')],(),['commands and data sent to gnuplot'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
