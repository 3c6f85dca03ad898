// Message passing between ranks that are controlled threads of one process (mock/mpi/boost/mpi presents it as Boost.MPI).
// One thread runs at a time (mc runtime), so no locking here. Every call is a scheduling point.
//   delivery EAGER: sends complete at once; RENDEZVOUS: a send completes when the matching receive has been posted;
//   LATE: as RENDEZVOUS, and the send buffer is read, the receive buffer written no earlier than in the calls that wait for them.
// Reported as failures: lengths or types that differ, buffers of posted receives changed or of pending sends reused, a request dropped while
// pending, collectives that do not agree, two threads of a rank inside a call at once (serialised threading), messages left over.
#pragma once
#include "mc.hpp"
#include <vector>
#include <deque>
#include <memory>
#include <cstring>
#include <cstdint>
#include <string>
#include <map>
#include <functional>
#include <typeinfo>

namespace mpi_mock
{
  enum Delivery { EAGER, RENDEZVOUS, LATE };
  enum class World {};
  struct Op
  {
    bool send; int ctx, rank, peer, tag; const std::type_info *type; char *buf; size_t bytes; std::vector<char> data; std::vector<char> own; // (own: storage of values)
    std::function<void(const char *)> store; // receives of values
    std::shared_ptr<Op> mate; bool taken = false, done = false;
  };
  typedef std::shared_ptr<Op> OpP;
  struct Coll { std::string what; int arrived = 0, left = 0; std::vector<std::vector<char>> in; bool ready = false; };
  struct State
  {
    int size = 1; Delivery delivery = EAGER; bool serialized = false; int level = 3; bool initialised = true;
    std::map<int, int> rank_of;               // controlled thread -> rank
    std::deque<OpP> pending;                  // not yet matched, in order of posting
    std::vector<int> inside; std::map<int, std::vector<size_t>> ncoll; // (by communicator)
    std::map<int, std::deque<Coll>> coll; std::map<std::pair<int, size_t>, int> dups;
    uint64_t messages = 0, collectives = 0, bytes = 0, calls = 0;
    std::vector<int> finalized, inited;
  };
  extern State *st;
  inline void start(int size, Delivery d, bool serialized) { st = new State; st->size = size; st->delivery = d; st->serialized = serialized; st->level = serialized ? 2 : 3; st->inside.assign(size, 0); st->finalized.assign(size, 0); st->inited.assign(size, 0); }
  inline void be(int rank) { st->rank_of[mc::self()] = rank; }
  inline int me()
  {
    if (!st) return 0;
    for (int t = mc::self(); t >= 0; t = mc::parent(t)) { auto i = st->rank_of.find(t); if (i != st->rank_of.end()) return i->second; }
    return 0;
  }
  struct Inside
  {
    int r;
    Inside(int r_, const char *what) : r(r_)
    {
      ++st->calls; mc::yield_point(what);
      if (++st->inside[r] > 1 && st->serialized) mc::fail("two threads of a process inside a message-passing call at once (" + std::string(what) + "), which serialised threading forbids");
    }
    ~Inside() { --st->inside[r]; }
  };
  inline std::string text(const Op &o) { return std::string(o.send ? "send" : "receive") + " by process " + std::to_string(o.rank) + (o.send ? " to " : " from ") + std::to_string(o.peer) + ", tag " + std::to_string(o.tag) + ", " + std::to_string(o.bytes) + " bytes"; }
  inline void pull(Op &r) // data arrives
  {
    if (r.taken) return; r.taken = true; Op &s = *r.mate;
    if (s.data.empty() && s.bytes) s.data.assign(s.buf, s.buf + s.bytes);
    if (r.store) r.store(s.data.data());
    else
    {
      for (size_t i = 0; i < r.bytes; ++i) if (r.buf[i] != (char)0xff) { mc::fail("the buffer of a posted " + text(r) + " was written to before it was complete"); break; }
      memcpy(r.buf, s.data.data(), r.bytes);
    }
  }
  inline void match()
  {
    for (size_t i = 0; i < st->pending.size(); ++i)
    {
      auto r = st->pending[i]; if (r->send) continue;
      for (size_t j = 0; j < st->pending.size(); ++j)
      {
        auto s = st->pending[j]; if (!s->send || s->peer != r->rank || s->rank != r->peer || s->tag != r->tag || s->ctx != r->ctx) continue;
        if (s->bytes != r->bytes || *s->type != *r->type) mc::fail("a " + text(*s) + " (" + s->type->name() + ") meets a " + text(*r) + " (" + r->type->name() + ")");
        s->mate = r; r->mate = s;
        ++st->messages; st->bytes += s->bytes;
        if (st->delivery != LATE) { if (s->data.empty() && s->bytes) s->data.assign(s->buf, s->buf + s->bytes); pull(*r); }
        st->pending.erase(st->pending.begin() + std::max(i, j)); st->pending.erase(st->pending.begin() + std::min(i, j));
        i = (size_t)-1; break;
      }
    }
  }
  inline OpP post(int ctx, bool send, int rank, int peer, int tag, const std::type_info &t, const void *buf, size_t bytes, bool value = false, std::function<void(const char *)> store = nullptr)
  {
    Inside in(rank, send ? "isend" : "irecv");
    if (peer < 0 || peer >= st->size) mc::fail("no such process: " + std::to_string(peer));
    auto o = std::make_shared<Op>(); o->send = send; o->ctx = ctx; o->rank = rank; o->peer = peer; o->tag = tag; o->type = &t; o->buf = (char *)buf; o->bytes = bytes; o->store = store;
    if (send && (value || st->delivery == EAGER)) { o->data.assign(o->buf, o->buf + bytes); if (value) o->buf = nullptr; }
    if (!send && !store) memset(o->buf, 0xff, bytes);
    st->pending.push_back(o); match();
    return o;
  }
  inline bool complete(const Op &o) { return o.send && st->delivery == EAGER ? true : (bool)o.mate; }
  inline void finish(Op &o)
  {
    if (o.done) return; o.done = true;
    if (o.send) { if (o.data.empty() && o.bytes) o.data.assign(o.buf, o.buf + o.bytes); } else pull(o);
    auto m = o.mate; if (m && m->done && o.done) { m->mate.reset(); o.mate.reset(); }
  }
  inline void wait(std::vector<OpP> ops)
  {
    std::vector<OpP> v; for (auto &o : ops) if (o && !o->done) v.push_back(o);
    if (v.empty()) return;
    Inside in(v[0]->rank, "wait");
    // (completed one by one, whichever is ready: the slowest admissible delivery)
    mc::block_until([&] { for (auto &o : v) if (!complete(*o)) return false; return true; }, "waiting for messages");
    for (auto &o : v) finish(*o);
  }
  // everybody's data, in the order of ranks; 'what' must agree
  inline std::vector<std::vector<char>> all(int ctx, int rank, const std::string &what, const void *p, size_t n, size_t *which = nullptr)
  {
    Inside in(rank, "collective");
    auto &nc = st->ncoll[ctx]; nc.resize(st->size); size_t k = nc[rank]++; if (which) *which = k;
    auto *q = &st->coll[ctx];
    while (q->size() <= k) { q->emplace_back(); q->back().in.resize(st->size); }
    Coll &c = (*q)[k];
    if (c.arrived == 0) { c.what = what; ++st->collectives; } else if (c.what != what) mc::fail("process " + std::to_string(rank) + " is in " + what + " while another one is in " + c.what);
    c.in[rank].assign((const char *)p, (const char *)p + n); ++c.arrived;
    mc::block_until([q, k] { return (*q)[k].arrived == st->size; }, "waiting for the other processes");
    return (*q)[k].in;
  }
  inline int duplicate(int ctx, int rank)
  {
    size_t k; all(ctx, rank, "duplication of a communicator", nullptr, 0, &k);
    auto &d = st->dups[{ctx, k}]; if (!d) d = (int)st->dups.size(); return d;
  }
  inline void finish_all()
  {
    for (auto &o : st->pending) mc::fail("left over: a " + text(*o));
    for (auto &q : st->coll) for (auto &c : q.second) if (c.arrived != st->size) mc::fail("left over: " + c.what);
    for (int i = 0; i < st->size; ++i) if (st->finalized[i] > 1) mc::fail("finalised twice");
  }
}
