// Linearizability of a recorded concurrent history (Wing & Gong's search, with a memory of failed states).
#pragma once
#include "mt.hpp"
#include <unordered_set>
namespace vf {
// Op needs uint64_t from, to (stamps around the call). Spec: State, bool apply(State&, const Op&), hash(State).
// Returns 1 linearizable, 0 not, -1 undecided within the budget.
template <typename Spec, typename Op> int linearizable(const std::vector<std::vector<Op>>& logs, typename Spec::State init, uint64_t budget = 2000000) {
    struct Frame { std::vector<uint32_t> at; typename Spec::State st; size_t next; };
    size_t n = logs.size(), total = 0; for (auto& l : logs) total += l.size();
    std::unordered_set<uint64_t> seen; std::vector<Frame> stack; stack.push_back({std::vector<uint32_t>(n, 0), init, 0}); uint64_t work = 0;
    while (!stack.empty()) {
        if (++work > budget) return -1;
        Frame& f = stack.back(); if (stack.size() == total + 1) return 1;
        // the earliest response among pending ones bounds what can come first
        uint64_t bound = ~0ull; for (size_t t = 0; t < n; ++t) if (f.at[t] < logs[t].size() && logs[t][f.at[t]].to < bound) bound = logs[t][f.at[t]].to;
        bool pushed = false;
        for (size_t t = f.next; t < n; ++t) {
            if (f.at[t] >= logs[t].size() || logs[t][f.at[t]].from > bound) continue;
            typename Spec::State s = f.st; if (!Spec::apply(s, logs[t][f.at[t]])) continue;
            auto at = f.at; ++at[t]; uint64_t h = Spec::hash(s); for (auto a : at) h = hcomb(h, a); if (!seen.insert(h).second) continue;
            f.next = t + 1; stack.push_back({std::move(at), std::move(s), 0}); pushed = true; break;
        }
        if (!pushed) stack.pop_back();
    }
    return 0;
}
}
