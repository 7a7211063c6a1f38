#pragma once
// Linearizability: is there an order of the operations, consistent with real time, that a sequential model allows?
#include "vf.hpp"
namespace vf
{
// Model: struct with  State (copyable), bool apply(State &, const Event &) const,  uint64_t hash(const State &) const.
template<typename Model>
class Lin
{
    const Model &m_; const std::vector<Event> &h_; std::unordered_set<uint64_t> seen_; uint64_t visited_ = 0;
    bool dfs(uint64_t done, const typename Model::State &s, const typename Model::State *final)
    {
        if (done == ((h_.size() == 64) ? ~0ULL : (1ULL << h_.size()) - 1)) return !final || m_.hash(*final) == m_.hash(s);
        if (!seen_.insert(mix(done, m_.hash(s))).second) return false;
        if (++visited_ > 2000000) return true; // too big to decide
        uint64_t minret = ~0ULL;
        for (size_t i = 0; i < h_.size(); i++) if (!(done >> i & 1)) minret = std::min(minret, h_[i].ret);
        for (size_t i = 0; i < h_.size(); i++)
        {
            if ((done >> i & 1) || h_[i].inv > minret) continue;
            typename Model::State n = s;
            if (m_.apply(n, h_[i]) && dfs(done | 1ULL << i, n, final)) return true;
        }
        return false;
    }
public:
    Lin(const Model &m, const std::vector<Event> &h) : m_(m), h_(h) { }
    bool check(const typename Model::State &init, const typename Model::State *final = nullptr) { return dfs(0, init, final); }
    uint64_t visited() const { return visited_; }
};

// one log per thread, joined afterwards
struct History
{
    std::vector<std::vector<Event>> t;
    explicit History(int n, size_t cap = 64) : t((size_t)n) { for (auto &v : t) v.reserve(cap); }
    std::vector<Event> all() const { std::vector<Event> r; for (auto &v : t) r.insert(r.end(), v.begin(), v.end()); return r; }
    std::string str(const char *const *names) const
    {
        std::string s;
        auto a = all(); std::sort(a.begin(), a.end(), [](const Event &x, const Event &y) { return x.inv < y.inv; });
        for (auto &e : a) s += "[" + std::to_string(e.inv) + "," + std::to_string(e.ret) + "] t" + std::to_string(e.thread) + " " + names[e.op] + "(" + std::to_string(e.a) + ")=" + std::to_string(e.b) + "; ";
        return s;
    }
    bool overlap() const
    {
        auto a = all();
        for (auto &x : a) for (auto &y : a) if (x.thread != y.thread && x.inv < y.ret && y.inv < x.ret) return true;
        return false;
    }
};
// runs one operation and logs it
template<typename F> inline void record(History &h, int thread, int op, int64_t a, F &&f)
{
    Event e; e.thread = thread; e.op = op; e.a = a;
    point();
    e.inv = stamp();
    e.b = f();
    e.ret = stamp();
    VF_QUIET;
    h.t[(size_t)thread].push_back(e);
}
}

// The same for models in which an operation may have taken effect in one of several ways:
// Model: State, int ways(const Event &) const, bool apply(State &, const Event &, int way) const, uint64_t hash(const State &) const.
namespace vf
{
template<typename Model>
class LinWays
{
    const Model &m_; const std::vector<Event> &h_; std::unordered_set<uint64_t> seen_; uint64_t visited_ = 0; uint64_t all_;
    bool dfs(uint64_t done, const typename Model::State &s)
    {
        if (done == all_) return true;
        if (!seen_.insert(mix(done, m_.hash(s))).second) return false;
        if (++visited_ > 400000) return true; // too big to decide
        uint64_t minret = ~0ULL;
        for (size_t i = 0; i < h_.size(); i++) if (!(done >> i & 1)) minret = std::min(minret, h_[i].ret);
        for (size_t i = 0; i < h_.size(); i++)
        {
            if ((done >> i & 1) || h_[i].inv > minret) continue;
            for (int w = 0, n = m_.ways(h_[i]); w < n; w++)
            {
                typename Model::State c = s;
                if (m_.apply(c, h_[i], w) && dfs(done | 1ULL << i, c)) return true;
            }
        }
        return false;
    }
public:
    LinWays(const Model &m, const std::vector<Event> &h) : m_(m), h_(h), all_(h.size() == 64 ? ~0ULL : (1ULL << h.size()) - 1) { }
    bool check(const typename Model::State &init) { return dfs(0, init); }
    bool undecided() const { return visited_ > 400000; }
    uint64_t visited() const { return visited_; }
};
}
