// Controlled-execution runtime: a cooperative scheduler for real threads (OpenMP, pthreads,
// std::thread, boost::thread), a recorder of shared-memory accesses, and schedule exploration.
// Everything runs in a forked child; the outcome comes back through a shared mapping.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace mc
{
  // ---------------------------------------------------------------- outcome of one execution
  enum Status { ST_OK = 0, ST_DEADLOCK = 1, ST_CRASH = 2, ST_STEPS = 3, ST_THROW = 4, ST_TIMEOUT = 5, ST_FAIL = 6 };
  const char *status_name(int);

  struct Choice { uint16_t n, chosen; uint8_t kind; uint8_t cur_enabled; };
  struct Conflict { uint64_t phase; uint64_t addr; uint64_t pc_w, pc_r; int tw, tr; uint32_t idx_w, idx_r; int kind; };
  // kind: 1 write/read seeing different values, 2 write/write of different values, 3 write that changes value repeatedly

  struct Outcome
  {
    int status = ST_OK;
    std::string msg;                    // exception text, deadlock description
    std::vector<uint8_t> obs;           // observables written by the body
    std::vector<Choice> choices;
    std::vector<Conflict> conflicts;    // value-changing conflicts
    std::vector<uint64_t> state_hashes; // one per phase end (if requested), or the indices of the points that are accesses to watched memory
    uint64_t phases = 0, turns = 0, accesses = 0, cells_shared = 0, same_value_races = 0, points = 0, syncs = 0;
    bool operator==(const Outcome &o) const { return status == o.status && obs == o.obs; }
  };

  // ---------------------------------------------------------------- what to do in one execution
  struct Preempt { uint64_t phase; int thread; uint32_t access; }; // hold 'thread' just before its access-th access of the phase until the others block
  struct Plan
  {
    int timeout_s = 60;
    uint64_t max_steps = 2000000;
    std::vector<int> order;         // thread priority order (default ascending)
    bool rotate = false;            // rotate the order by one at every phase
    bool log_accesses = false;      // record and analyse shared-memory accesses
    bool hash_states = false;
    bool dfs = false;               // choices driven by 'prefix', then default
    bool mutex_points = false;      // mutex/cond operations and thread creation are scheduling points
    std::vector<uint16_t> prefix;
    bool count_all = false;         // search: bound every departure from the default choice, not only preemptions
    int spurious = 0;               // number of spurious wake-ups allowed
    std::vector<Preempt> preempts;
    int64_t inject_at = -1;         // run 'inject' just before the inject_at-th point
    std::function<void()> inject;   // (points: synchronisation operations and accesses to watched memory)
    const void *watch = nullptr;    // (may be set by the body, see mc::watch)
    int fill = -1;                  // pre-fill pattern for malloc'd memory (-1: leave)
    bool points_all_sync = true;
    bool access_points = false;     // accesses to watched memory are scheduling points
    bool cache = false;             // search: fingerprint memory written, lock state and the values each thread has read; prune states seen before
  };

  // run body in a forked child under the plan; body may append to obs through the functions below
  Outcome run(const Plan &, const std::function<void()> &body);

  // ---------------------------------------------------------------- for use inside a body
  void obs_bytes(const void *, size_t);
  template <class T> void obs(const T &x) { obs_bytes(&x, sizeof x); }
  void set_inject(std::function<void()>);
  void watch(const void *addr, size_t size);          // accesses to this memory are points
  void watch_object(const void *p);                   // the same, for the whole block allocated at p (caching searches)
  void fail(const std::string &msg);                  // record a failed check and stop this execution
  bool active();
  uint64_t points_so_far();
  int  self();                                        // controlled-thread id
  int  parent(int id);                                // the thread that created it, or -1
  void hash_region(const void *, size_t);             // contributes to the per-phase state hash
  void yield_point(const char *what);                 // explicit scheduling point
  void block_until(const std::function<bool()> &cond, const char *what); // block the calling controlled thread
  int  spawn(const std::function<void()> &);          // controlled thread
  void join(int);
  void set_omp_threads(int);                          // initial ICV
  // state caching (exhaustive search with a visited set across executions, see Search)
  void set_state_fn(std::function<uint64_t()>);       // fingerprint of shared state, called at choice points
  void local_hash(uint64_t);                          // replace the fingerprint of the calling thread's local state

  // ---------------------------------------------------------------- exhaustive schedule search
  struct SearchStats { uint64_t executions = 0, choice_points = 0, states = 0, transitions = 0, pruned = 0; bool complete = true; };
  // depth-first over all choice sequences with at most 'preempt_bound' preemptive choices (<0: unbounded).
  // check() is called with each outcome; returning false stops the search.
  SearchStats search(Plan base, int preempt_bound, uint64_t max_exec,
                     const std::function<void()> &body,
                     const std::function<bool(const Outcome &, const std::vector<uint16_t> &prefix)> &check,
                     double max_seconds = 1e9);
  uint64_t fnv(const void *, size_t, uint64_t h = 1469598103934665603ull);
}
