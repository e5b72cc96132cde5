// C01: Vec / Stack / Array / Slice against std::vector, with element lifetime registry.
#include "mon.h"
#include "owned.h"
#include <rpp/base.h>
#include <rpp/stack.h>
using namespace rpp;
typedef std::vector<int64_t> M;
static uint64_t g_op_hash;

template<typename V> static void check_vec(const V& v, const M& m, const char* op) {
    using T = Decay<decltype(v[0])>;
    mon::eval();
    if(v.length() != m.size()) { mon::violation("vec.length", "%s: length %llu, expected %zu after %s", El<T>::name, (unsigned long long)v.length(), m.size(), op); return; }
    MON_CHECK(v.empty() == m.empty(), "vec.empty", "empty() wrong after %s", op);
    MON_CHECK(v.capacity() >= v.length(), "vec.capacity", "capacity %llu < length %zu after %s", (unsigned long long)v.capacity(), m.size(), op);
    MON_CHECK(v.full() == (v.length() == v.capacity()), "vec.full", "full() wrong after %s", op);
    MON_CHECK(v.bytes() == m.size() * sizeof(T), "vec.bytes", "bytes() wrong after %s", op);
    for(size_t i = 0; i < m.size(); i++)
        if(El<T>::get(v[i]) != m[i]) { mon::violation("vec.content", "%s: [%zu] = %lld, expected %lld after %s", El<T>::name, i, (long long)El<T>::get(v[i]), (long long)m[i], op); return; }
    size_t i = 0;
    for(const T& x : v) { if(i >= m.size() || El<T>::get(x) != m[i]) { mon::violation("vec.iteration", "iteration differs at %zu after %s", i, op); return; } i++; }
    MON_CHECK(i == m.size(), "vec.iteration", "iteration visited %zu of %zu after %s", i, m.size(), op);
    if(!m.empty()) {
        MON_CHECK(El<T>::get(v.front()) == m.front(), "vec.front", "front() wrong after %s", op);
        MON_CHECK(El<T>::get(v.back()) == m.back(), "vec.back", "back() wrong after %s", op);
    }
    V& w = const_cast<V&>(v); // every checked vector is a non-const object: the two overloads of each accessor agree
    MON_CHECK(w.data() == v.data() && w.begin() == v.begin() && w.end() == v.end() && v.end() == v.begin() + m.size() && w.slice().data() == v.data() && w.slice().length() == m.size(), "vec.overloads", "const and mutable views differ after %s", op);
    if(!m.empty()) MON_CHECK(&w.front() == &v.front() && &w.back() == &v.back() && &w[m.size() - 1] == &v.back() && &v[0] == &v.front() && &w[0] == v.data(), "vec.overloads", "const and mutable elements differ after %s", op);
    auto s = v.slice();
    MON_CHECK(s.length() == m.size() && s.data() == v.data() && s.bytes() == v.bytes(), "vec.slice", "slice() does not view the whole vector after %s", op);
}

template<typename T, typename A> static void vec_history(mon::Rng& r, int nops) {
    {
        Vec<T, A> v[3]; M m[3];
        int64_t next = 1;
        std::string trace;
        for(int o = 0; o < nops; o++) {
            int a = (int)r(3), b = (int)r(3), op = (int)r(22);
            const char* name = "?";
            Vec<T, A>& x = v[a]; M& y = m[a];
            switch(op) {
            case 0: case 1: case 2: case 3: { name = "push";
                int64_t k = El<T>::tracked ? next++ : (next = next % 100 + 1);
                T& ref = x.push(El<T>::make(k)); y.push_back(k);
                MON_CHECK(&ref == &x[x.length() - 1] && El<T>::get(ref) == k, "vec.push-ref", "push returned a reference to something else"); break; }
            case 4: case 5: { name = "emplace"; int64_t k = next = next % 100 + 1; 
                if constexpr(requires { T{k}; } && El<T>::tracked) { T& ref = x.emplace(k); MON_CHECK(&ref == &x.back(), "vec.emplace-ref", "emplace returned a wrong reference"); }
                else { T& ref = x.emplace(El<T>::make(k)); MON_CHECK(&ref == &x.back(), "vec.emplace-ref", "emplace returned a wrong reference"); }
                y.push_back(k); break; }
            case 6: case 7: name = "pop"; if(!y.empty()) { x.pop(); y.pop_back(); } break;
            case 8: { name = "reserve"; uint64_t c = r(40); uint64_t old = x.capacity(); x.reserve(c); MON_CHECK(x.capacity() >= c && x.capacity() >= old, "vec.reserve", "reserve(%llu) left capacity %llu", (unsigned long long)c, (unsigned long long)x.capacity()); break; }
            case 9: { name = "resize"; uint64_t c = r(4) ? r(30) : y.size() + r(3); x.resize(c); y.resize(c, 0); break; }
            case 10: { name = "extend"; uint64_t c = r(9); x.extend(c); y.resize(y.size() + c, 0); break; }
            case 11: name = "clear"; if(r(3) == 0) { x.clear(); y.clear(); } break;
            case 12: { name = "clone"; if(a == b) break; v[b] = x.clone(); m[b] = y;
                if(!y.empty()) { size_t i = r(y.size()); El<T>::set(v[b][i], 55); m[b][i] = 55; } break; }
            case 13: { name = "move-construct"; Vec<T, A> t = move(x); MON_CHECK(x.length() == 0 && x.empty(), "vec.moved-from", "moved-from Vec is not empty"); check_vec(t, y, "move-construct"); if(r(2)) { x = move(t); } else { y.clear(); } break; }
            case 14: { name = "move-assign"; if(a == b) break; v[b] = move(x); m[b] = y; y.clear(); break; }
            case 15: { name = "set"; if(!y.empty()) { size_t i = r(y.size()); El<T>::set(x[i], 77); y[i] = 77; } break; }
            case 16: { name = "make"; uint64_t c = r(12); x = Vec<T, A>::make(c); y.assign(c, 0); break; }
            case 17: { name = "capacity-ctor"; x = Vec<T, A>(rpp::u64(r(10))); y.clear(); MON_CHECK(x.length() == 0, "vec.capacity-ctor", "Vec(capacity) not empty"); break; }
            case 18: { name = "list-ctor"; x = Vec<T, A>{El<T>::make(3), El<T>::make(1), El<T>::make(2)}; y = {3, 1, 2}; break; }
            case 19: { name = "push-const-ref"; if constexpr(El<T>::copyable) { if(!y.empty()) { size_t i = r(y.size()); int64_t k = y[i]; const T& own = x[i]; x.push(own); y.push_back(k); } } else { x.push(El<T>::make(9)); y.push_back(9); } break; }
            case 20: { name = "emplace-own"; if constexpr(El<T>::copyable) if(!y.empty()) { size_t i = r(y.size()); int64_t k = y[i]; const T& own = x[i]; T& ref = x.emplace(own); y.push_back(k); MON_CHECK(&ref == &x.back(), "vec.emplace-ref", "emplace returned a wrong reference"); } break; }
            case 21: { name = "push-own-moved"; if constexpr(requires(T& p, T q) { p = rpp::move(q); }) if(!y.empty()) { size_t i = r(y.size()); int64_t k = y[i]; T& ref = x.push(rpp::move(x[i])); MON_CHECK(&ref == &x.back(), "vec.push-ref", "push returned a wrong reference"); x[i] = El<T>::make(66); y[i] = 66; y.push_back(k); } break; }
            }
            if(o < 12) { trace += name; trace += ' '; }
            g_op_hash = mon::mix(g_op_hash, (uint64_t)op * 64 + y.size());
            mon::ctx("vec<%s> history step %d op %s len %zu", El<T>::name, o, name, y.size());
            for(int k = 0; k < 3; k++) check_vec(v[k], m[k], name);
            if(El<T>::tracked) MON_CHECK(mon::reg().live_now() == (int64_t)(m[0].size() + m[1].size() + m[2].size()), "vec.live-elements", "%s: %lld live elements, expected %zu after %s", El<T>::name, (long long)mon::reg().live_now(), m[0].size() + m[1].size() + m[2].size(), name);
        }
        mon::distinct(g_op_hash);
        mon::sample(mon::fmt("Vec<%s>: %s...", El<T>::name, trace.c_str()));
    }
    mon::reg().case_end("Vec history");
}

// Every (length, capacity) small corner with every single operation.
template<typename T> static void vec_corners() {
    for(uint64_t cap = 0; cap <= 17; cap++) for(uint64_t len = 0; len <= cap; len++) for(int op = 0; op < 9; op++) {
        {
            mon::ctx("vec<%s> corner cap %llu len %llu op %d", El<T>::name, (unsigned long long)cap, (unsigned long long)len, op);
            Vec<T> v(rpp::u64{cap}); M m;
            for(uint64_t i = 0; i < len; i++) { v.push(El<T>::make((int64_t)i + 1)); m.push_back((int64_t)i + 1); }
            MON_CHECK(v.capacity() >= cap, "vec.corner", "capacity shrank");
            const char* n = "none";
            switch(op) {
            case 0: v.push(El<T>::make(99)); m.push_back(99); n = "push"; break;
            case 1: if(len) { v.pop(); m.pop_back(); } n = "pop"; break;
            case 2: v.reserve(cap + 1); n = "reserve+1"; break;
            case 3: v.resize(cap + 3); m.resize(cap + 3, 0); n = "resize"; break;
            case 4: v.resize(len / 2); m.resize(len / 2); n = "shrink"; break;
            case 5: { auto c = v.clone(); check_vec(c, m, "clone corner"); n = "clone"; break; }
            case 6: v.clear(); m.clear(); n = "clear"; break;
            case 7: v.grow(); n = "grow"; MON_CHECK(v.capacity() > cap, "vec.grow", "grow() did not grow"); break;
            case 8: { Vec<T> w = move(v); check_vec(w, m, "move corner"); m.clear(); v.push(El<T>::make(4)); m.push_back(4); n = "move"; break; }
            }
            check_vec(v, m, n);
            mon::distinct(mon::mix(mon::mix(cap, len), (uint64_t)op + 1000 * sizeof(T)));
        }
        mon::reg().case_end("Vec corner");
    }
}

// sizes far beyond the histories': whole content after every kind of reallocation
template<typename T> static void large(uint64_t n) {
    {
        auto val = [](uint64_t i) { return (int64_t)(i % 97) + 1; }; // no power of two maps onto itself
        auto all = [&](const Vec<T>& v, uint64_t len, uint64_t kept, const char* op) {
            mon::eval(len);
            if(v.length() != len) return mon::violation("vec.large", "length %llu, expected %llu after %s", (unsigned long long)v.length(), (unsigned long long)len, op);
            for(uint64_t i = 0; i < len; i++) if(El<T>::get(v[i]) != (i < kept ? val(i) : 0)) return mon::violation("vec.large", "element %llu of %llu wrong after %s", (unsigned long long)i, (unsigned long long)len, op);
        };
        mon::ctx("large vec<%s> of %llu", El<T>::name, (unsigned long long)n);
        Vec<T> v;
        for(uint64_t i = 0; i < n; i++) v.push(El<T>::make(val(i)));
        all(v, n, n, "push");
        auto c = v.clone();
        all(c, n, n, "clone");
        c.reserve(c.capacity() + n);
        all(c, n, n, "reserve");
        Vec<T> m = move(c);
        m.resize(n + n / 3 + 1);
        all(m, n + n / 3 + 1, n, "resize up");
        auto d = m.clone();
        all(d, n + n / 3 + 1, n, "clone of resized");
        m.resize(n / 2);
        all(m, n / 2, n, "resize down");
        v = move(m);
        all(v, n / 2, n, "move assignment");
        Stack<T> s;
        for(uint64_t i = 0; i < n; i++) s.push(El<T>::make(val(i)));
        auto sc = s.clone();
        MON_CHECK(sc.length() == n && s.length() == n, "stack.large", "%llu elements pushed, lengths %llu and %llu", (unsigned long long)n, (unsigned long long)s.length(), (unsigned long long)sc.length());
        for(uint64_t i = n; i-- > 0;) { if(El<T>::get(s.top()) != val(i) || El<T>::get(sc.top()) != val(i)) { mon::violation("stack.large", "element %llu of %llu wrong", (unsigned long long)i, (unsigned long long)n); break; } s.pop(); sc.pop(); }
        MON_CHECK(s.empty() && sc.empty(), "stack.large", "popped stacks not empty");
        mon::distinct(mon::mix(n, sizeof(T) + 77));
    }
    mon::reg().case_end("large Vec");
}

// storage written through data(), then taken over as elements
static void filled(mon::Rng& r) {
    Vec<u8> v; u64 n = r(300), keep = n ? r(n + 1) : 0;
    v.reserve(n);
    for(u64 i = 0; i < keep; i++) v.push((u8)i);
    u64 cap = v.capacity();
    for(u64 i = keep; i < cap; i++) v.data()[i] = (u8)(i * 7);
    v.unsafe_fill();
    mon::eval();
    MON_CHECK(cap >= n && v.length() == cap && v.capacity() == cap && v.full(), "vec.fill", "a vector of capacity %llu filled has length %llu", (unsigned long long)cap, (unsigned long long)v.length());
    for(u64 i = 0; i < cap && i < v.length(); i++) if(v[i] != (u8)(i < keep ? i : i * 7)) { mon::violation("vec.fill", "element %llu of a filled vector is not what was stored", (unsigned long long)i); break; }
}
template<typename T> static void stack_history(mon::Rng& r, int nops) {
    {
        Stack<T> s[2]; M m[2]; uint64_t h = 7;
        for(int o = 0; o < nops; o++) {
            int a = (int)r(2), op = (int)r(11); Stack<T>& x = s[a]; M& y = m[a];
            int64_t k = (int64_t)r(100) + 1;
            switch(op) {
            case 0: if constexpr(El<T>::copyable) { T val = El<T>::make(k); T& ref = x.push((const T&)val); y.push_back(k); MON_CHECK(El<T>::get(ref) == k && El<T>::get(val) == k, "stack.push-ref", "pushing a copy went wrong"); break; } [[fallthrough]];
            case 1: case 2: { T& ref = x.push(El<T>::make(k)); y.push_back(k); MON_CHECK(El<T>::get(ref) == k && &ref == &x.top(), "stack.push-ref", "push reference wrong"); break; }
            case 3: x.emplace(El<T>::make(k)); y.push_back(k); break;
            case 4: case 5: if(!y.empty()) { x.pop(); y.pop_back(); } break;
            case 6: if(r(4) == 0) { x.clear(); y.clear(); } break;
            case 7: s[1 - a] = x.clone(); m[1 - a] = y; break;
            case 8: { Stack<T> t = move(x); MON_CHECK(x.empty(), "stack.moved-from", "moved-from Stack not empty"); x = move(t); break; }
            case 9: s[1 - a] = move(x); m[1 - a] = y; y.clear(); break;
            case 10: x = Stack<T>{El<T>::make(5), El<T>::make(6)}; y = {5, 6}; break;
            }
            h = mon::mix(h, (uint64_t)op * 64 + y.size());
            mon::ctx("stack<%s> step %d op %d", El<T>::name, o, op);
            for(int k2 = 0; k2 < 2; k2++) {
                mon::eval();
                const Stack<T>& c = s[k2]; const M& mm = m[k2];
                if(c.length() != mm.size() || c.empty() != mm.empty()) { mon::violation("stack.length", "length %llu expected %zu after op %d", (unsigned long long)c.length(), mm.size(), op); return; }
                if(!mm.empty()) MON_CHECK(El<T>::get(c.top()) == mm.back(), "stack.top", "top wrong after op %d", op);
                size_t i = 0; for(const T& e : c) { MON_CHECK(i < mm.size() && El<T>::get(e) == mm[i], "stack.iteration", "element %zu wrong after op %d", i, op); i++; }
                MON_CHECK(i == mm.size(), "stack.iteration", "iteration count wrong");
                i = 0; for(T& e : s[k2]) { MON_CHECK(i < mm.size() && El<T>::get(e) == mm[i], "stack.iteration", "mutable element %zu wrong after op %d", i, op); i++; }
                MON_CHECK(i == mm.size(), "stack.iteration", "mutable iteration count wrong");
                MON_CHECK(mm.empty() || &s[k2].top() == &c.top(), "stack.top", "const and mutable tops differ");
                if(mm.size()) MON_CHECK(c.end() - c.begin() == (ptrdiff_t)mm.size() && &c.top() == c.end() - 1, "stack.iteration", "the last element is not the top");
            }
            if(El<T>::tracked) MON_CHECK(mon::reg().live_now() == (int64_t)(m[0].size() + m[1].size()), "stack.live-elements", "live element count wrong after op %d", op);
        }
        mon::distinct(h);
        // unwinding: pops come out in exactly reverse order of what remains
        for(int k2 = 0; k2 < 2; k2++) while(!m[k2].empty()) { MON_CHECK(El<T>::get(s[k2].top()) == m[k2].back(), "stack.lifo", "pop order wrong"); s[k2].pop(); m[k2].pop_back(); }
    }
    mon::reg().case_end("Stack history");
}

template<typename T, u64 N> static void array_case(mon::Rng& r) {
    {
        Array<T, N> a; M m(N, 0);
        for(u64 i = 0; i < N; i++) { int64_t k = (int64_t)r(50) + 1; a[i] = El<T>::make(k); m[i] = k; }
        auto chk = [&](const Array<T, N>& x, const M& mm, const char* op) {
            mon::eval();
            MON_CHECK(x.length() == N, "array.length", "length wrong");
            for(u64 i = 0; i < N; i++) MON_CHECK(El<T>::get(x[i]) == mm[i] && &x[i] == x.data() + i, "array.content", "[%llu] wrong after %s", (unsigned long long)i, op);
            u64 i = 0; for(const T& e : x) { MON_CHECK(i < N && El<T>::get(e) == mm[i], "array.iteration", "iteration wrong after %s", op); i++; }
            MON_CHECK(i == N, "array.iteration", "iteration count wrong");
            auto s = x.slice(); MON_CHECK(s.length() == N && s.data() == x.data(), "array.slice", "slice wrong");
        };
        chk(a, m, "fill");
        Array<T, N> c = a.clone(); chk(c, m, "clone");
        El<T>::set(c[N - 1], 51); MON_CHECK(El<T>::get(a[N - 1]) == m[N - 1], "array.clone-independent", "clone shares storage");
        Array<T, N> d = move(a); chk(d, m, "move");
        Array<T, N> e; e = move(d); chk(e, m, "move-assign");
        if constexpr(El<T>::copyable) { Array<T, N> f = e; chk(f, m, "copy"); Array<T, N> g; g = f; chk(g, m, "copy-assign"); El<T>::set(g[0], 52); chk(f, m, "copy independent"); }
        mon::distinct(mon::mix(N, (uint64_t)m[0] * 7 + sizeof(T)));
    }
    mon::reg().case_end("Array case");
}

template<typename T> static void byte_views(mon::Rng& r) {
    uint64_t n = r(9);
    T* p = (T*)calloc(n + (n == 0), sizeof(T));
    Slice<T> s{p, n};
    const Slice<T> k{p, n};
    Slice<const T> cs = s;
    auto a = s.to_bytes();
    auto b = cs.to_bytes();
    auto c = k.to_bytes();
    MON_CHECK((void*)a.data() == p && (const void*)b.data() == p && (const void*)c.data() == p, "slice.to_bytes", "byte view elsewhere");
    MON_CHECK(a.length() == n * sizeof(T) && b.length() == a.length() && c.length() == a.length(), "slice.to_bytes", "byte view of %llu elements of %zu bytes has lengths %llu, %llu, %llu", (unsigned long long)n, sizeof(T), (unsigned long long)a.length(), (unsigned long long)b.length(), (unsigned long long)c.length());
    MON_CHECK(s.bytes() == n * sizeof(T) && cs.bytes() == n * sizeof(T), "slice.bytes", "bytes() wrong for elements of %zu bytes", sizeof(T));
    for(uint64_t i = 0; i < a.length(); i++) a[i] = (u8)(i * 7 + 1);
    for(uint64_t i = 0; i < n * sizeof(T); i++) MON_CHECK(((u8*)p)[i] == (u8)(i * 7 + 1) && b[i] == (u8)(i * 7 + 1), "slice.to_bytes", "byte %llu not written through", (unsigned long long)i);
    free(p);
    mon::eval();
}
struct B3 { u8 b[3]; };
struct B12 { int a, b, c; };
struct B24 { u8 a; double d; u16 e; };
static void slice_case(mon::Rng& r) {
    byte_views<u8>(r); byte_views<u16>(r); byte_views<u64>(r); byte_views<B3>(r); byte_views<B12>(r); byte_views<B24>(r);
    // Backing buffers are exact-size heap blocks so any overrun is an ASan report.
    uint64_t n = r(20);
    int* buf = (int*)malloc(n * sizeof(int) + (n == 0));
    for(uint64_t i = 0; i < n; i++) buf[i] = (int)r(1000);
    Slice<int> s{buf, n}; Slice<const int> cs = s;
    MON_CHECK(s.length() == n && s.empty() == (n == 0) && s.bytes() == n * sizeof(int) && s.data() == buf, "slice.basic", "basic accessors wrong for n=%llu", (unsigned long long)n);
    MON_CHECK(cs.length() == n && cs.data() == buf, "slice.const", "conversion to const slice wrong");
    Slice<int> cl = s.clone(); MON_CHECK(cl.data() == buf && cl.length() == n, "slice.clone", "clone views something else");
    uint64_t i = 0; for(int x : cs) { MON_CHECK(x == buf[i], "slice.iteration", "iteration wrong"); i++; }
    MON_CHECK(i == n, "slice.iteration", "iteration count %llu of %llu", (unsigned long long)i, (unsigned long long)n);
    if(n) { MON_CHECK(s.front() == buf[0] && s.back() == buf[n - 1] && &s[n - 1] == buf + n - 1, "slice.ends", "front/back/index wrong"); s[n / 2] = 12345; MON_CHECK(buf[n / 2] == 12345 && cs[n / 2] == 12345, "slice.write-through", "write did not reach the storage"); }
    for(uint64_t a = 0; a <= n; a++) for(uint64_t l = 0; a + l <= n; l++) {
        mon::eval();
        auto u = cs.sub(a, l);
        MON_CHECK(u.length() == l && u.data() == buf + a, "slice.sub", "sub(%llu,%llu) of %llu wrong", (unsigned long long)a, (unsigned long long)l, (unsigned long long)n);
        auto w = s.sub(a, l); MON_CHECK(w.length() == l && w.data() == buf + a, "slice.sub", "mutable sub wrong");
        mon::distinct(mon::mix(mon::mix(n, a), l + 99991));
    }
    auto by = cs.to_bytes(); MON_CHECK(by.length() == n * 4 && (const void*)by.data() == buf, "slice.to_bytes", "to_bytes wrong");
    auto by2 = s.to_bytes(); MON_CHECK(by2.length() == n * 4 && (void*)by2.data() == buf, "slice.to_bytes", "mutable to_bytes wrong");
    unsigned sum = 0; for(u8 b : by) sum += b; 
    unsigned sum2 = 0; for(size_t k = 0; k < n * 4; k++) sum2 += ((unsigned char*)buf)[k];
    MON_CHECK(sum == sum2, "slice.to_bytes", "byte view content differs");
    Slice<const int> init{1, 2, 3}; (void)init;
    MON_CHECK((Slice<const int>{7, 8, 9}).length() == 3, "slice.init", "initializer slice length");
    Slice<int> e; MON_CHECK(e.empty() && e.length() == 0 && e.begin() == e.end(), "slice.default", "default slice not empty");
    free(buf);
}

template<typename T> static void vec_slice(mon::Rng& r) {
    { Vec<T> v; M m; uint64_t n = r(30); for(uint64_t i = 0; i < n; i++) { v.push(El<T>::make((int64_t)i + 1)); }
      auto s = v.slice(); mon::eval(); for(uint64_t i = 0; i < n; i++) { El<T>::set(s[i], (int64_t)i + 2); }
      for(uint64_t i = 0; i < n; i++) MON_CHECK(El<T>::get(v[i]) == (int64_t)i + 2, "vec.slice-write", "slice write not visible");
      // a large vector: content survives many reallocations
      Vec<T> big; uint64_t N = 200 + r(900); for(uint64_t i = 0; i < N; i++) big.push(El<T>::make((int64_t)(i % 97) + 1));
      for(uint64_t i = 0; i < N; i++) if(El<T>::get(big[i]) != (int64_t)(i % 97) + 1) { mon::violation("vec.large", "element %llu lost during growth", (unsigned long long)i); break; }
      Vec<Vec<T>> nest; for(int i = 0; i < 20; i++) { Vec<T> in; for(int k = 0; k < i; k++) in.push(El<T>::make(k + 1)); nest.push(move(in)); }
      auto nc = nest.clone();
      for(int i = 0; i < 20; i++) { MON_CHECK(nest[i].length() == (u64)i && nc[i].length() == (u64)i, "vec.nested", "nested vector length lost"); for(int k = 0; k < i; k++) MON_CHECK(El<T>::get(nc[i][k]) == k + 1 && (const void*)&nc[i][k] != (const void*)&nest[i][k], "vec.nested", "nested clone wrong"); }
    }
    mon::reg().case_end("Vec slice/large/nested");
}

struct VNode { Trk t; Vec<VNode> c; explicit VNode(int64_t v) : t(v) {} };
static Vec<VNode>& kids(VNode& n) { return n.c; }
int main(int argc, char** argv) {
    mon::init(argc, argv, "C01", "random operation histories over 3 Vecs / 2 Stacks per element type (int, u8, pod, clonable, copyable) and exhaustive small (capacity, length, operation) corners; a history is distinct by its (operation, length) sequence, a corner by its triple");
    mon::Rng r(mon::S().seed);
    if(mon::want("vec")) for(uint64_t i = 0, n = mon::n(1200, 30000); i < n; i++) {
        int len = 20 + (int)r(120);
        g_op_hash = 1; vec_history<int, Mdefault>(r, len);
        g_op_hash = 2; vec_history<uint8_t, Mhidden>(r, len);
        g_op_hash = 3; vec_history<Pod, Mallocator<"Verif">>(r, len);
        g_op_hash = 4; vec_history<Trk, Mdefault>(r, len);
        g_op_hash = 5; vec_history<Cpy, Mdefault>(r, len);
    }
    if(mon::want("corners")) { vec_corners<int>(); vec_corners<uint8_t>(); vec_corners<Pod>(); vec_corners<Trk>(); vec_corners<Cpy>(); }
    if(mon::want("large")) {
        std::vector<uint64_t> ns = {255, 257, 1025, 4096 + r(100), 16385 + r(1000), 65535, 65537 + r(5000)};
        if(mon::S().thorough) for(uint64_t k = 8; k <= 18; k++) for(uint64_t d = 0; d < 3; d++) ns.push_back((1ull << k) - 1 + d);
        for(uint64_t n : ns) { large<int>(n); large<uint8_t>(n * 4); large<Pod>(n); large<Trk>(n); large<Cpy>(n); }
    }
    if(mon::want("filled")) for(uint64_t i = 0, n = mon::n(2000, 40000); i < n; i++) filled(r);
    if(mon::want("stack")) for(uint64_t i = 0, n = mon::n(900, 15000); i < n; i++) { int len = 20 + (int)r(100); stack_history<int>(r, len); stack_history<Pod>(r, len); stack_history<Trk>(r, len); stack_history<Cpy>(r, len); }
    if(mon::want("array")) for(uint64_t i = 0, n = mon::n(500, 5000); i < n; i++) { array_case<int, 1>(r); array_case<int, 7>(r); array_case<Pod, 3>(r); array_case<Trk, 1>(r); array_case<Trk, 5>(r); array_case<Cpy, 4>(r); array_case<uint8_t, 16>(r); }
    if(mon::want("slice")) for(uint64_t i = 0, n = mon::n(500, 5000); i < n; i++) slice_case(r);
    if(mon::want("owned")) for(uint64_t i = 0, n = mon::n(150, 3000); i < n; i++) owned_replace<VNode, Vec<VNode>>(r, "vec.owned-replace", "Vec", true, [](Vec<VNode>& c, VNode&& x) { c.push(rpp::move(x)); }, [](Vec<VNode>& c, auto f) { for(VNode& x : c) f(x); });
    if(mon::want("nested")) for(uint64_t i = 0, n = mon::n(40, 400); i < n; i++) { vec_slice<int>(r); vec_slice<Trk>(r); vec_slice<Cpy>(r); }
    mon::count("elements_constructed", mon::reg().made); mon::count("elements_moved", mon::reg().moved); mon::count("elements_destroyed", mon::reg().destroyed);
    return mon::finish();
}
