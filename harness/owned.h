// A container replaced by one that its own elements own: `c = move(c[i].children)`.
// The taken subtree has to arrive complete and everything else has to be destroyed exactly once.
#pragma once
#include "mon.h"
#include <algorithm>
#include <functional>
#include <string>
#include <utility>
#include <vector>

// N: an element with `Trk t` whose children `C& kids(N&)` names; put(C&, N&&) adds one; each(C&, f) calls f(N&) for every element.
template<typename N, typename C, typename Put, typename Each>
static void owned_replace(mon::Rng& r, const char* id, const char* what, bool ordered, Put put, Each each) {
    {
        std::function<C(int)> build = [&](int d) {
            C c; uint64_t k = d <= 0 ? 0 : r(4);
            for(uint64_t i = 0; i < k; i++) { N n((int64_t)r(1000)); kids(n) = build(d - 1); put(c, std::move(n)); }
            return c;
        };
        std::function<std::string(C&)> sig = [&](C& c) {
            std::vector<std::string> parts; each(c, [&](N& n) { parts.push_back(std::to_string(n.t.get()) + "(" + sig(kids(n)) + ")"); });
            if(!ordered) std::sort(parts.begin(), parts.end());
            std::string s; for(auto& p : parts) s += p + ","; return s;
        };
        std::function<int64_t(C&)> cnt = [&](C& c) -> int64_t { int64_t k = 0; each(c, [&](N& n) { k += 1 + cnt(kids(n)); }); return k; };
        std::function<void(C&, std::vector<C*>&)> below = [&](C& c, std::vector<C*>& out) { each(c, [&](N& n) { out.push_back(&kids(n)); below(kids(n), out); }); };
        C root = build(5);
        for(int step = 0; step < 60; step++) {
            int64_t before = cnt(root); if(before == 0) break;
            mon::ctx("%s replaced by something its own elements own, step %d", what, step);
            std::vector<C*> all{&root}; below(root, all);
            C* to = all[r(3) ? r(all.size()) : 0]; std::vector<C*> inside; below(*to, inside);
            if(inside.empty()) continue;
            C* from = inside[r(inside.size())];
            std::string want = sig(*from); int64_t keep = cnt(*from), gone = cnt(*to) - keep;
            *to = std::move(*from);
            mon::eval(3);
            if(sig(*to) != want || cnt(*to) != keep) { mon::violation(id, "%s: after taking a subtree of %lld elements from inside itself it holds %lld", what, (long long)keep, (long long)cnt(*to)); return; }
            if(cnt(root) != before - gone) { mon::violation(id, "%s: %lld elements left, expected %lld", what, (long long)cnt(root), (long long)(before - gone)); return; }
            if(mon::reg().live_now() != before - gone) { mon::violation(id, "%s: %lld live objects, expected %lld", what, (long long)mon::reg().live_now(), (long long)(before - gone)); return; }
            mon::distinct(mon::mix(mon::hstr(want + what), (uint64_t)gone));
        }
        C& self = root; root = std::move(self); // moving onto itself must leave something destructible
    }
    mon::reg().case_end(what);
}
