// Scenarios on the C++ interface. Choices and failures go to the engine.
#include "ipmb.h"
#include <cstdio>
#include <cstring>
#include <optional>
#include <vector>
#include <sys/mman.h>
#include <unistd.h>

extern "C" {
uint32_t mc_choose(uint32_t n);
void mc_quiesce();
void mc_set_proc(int);
int mc_proc();
int mc_fd_count(int);
void mc_idle(int64_t);
[[noreturn]] void cc_fail(const char*, const char*);
void cc_note(const char*);
int64_t cc_live();
}
static int64_t live;
extern "C" int64_t cc_live() { return live; }
void* operator new(size_t n) {
    void* p = malloc(n ? n : 1);
    if (!p) abort();
    live++;
    memset(p, 0xd7, n);
    return p;
}
void operator delete(void* p) noexcept {
    if (p) {
        live--;
        free(p);
    }
}
void operator delete(void* p, size_t n) noexcept {
    if (p) memset(p, 0xee, n);
    operator delete(p);
}
extern "C" void cc_warm() {
    ipmb::Version v;
    std::string s(100, 'x');
}
#define CHECK(c, sig, ...) do { if (!(c)) { char b_[300]; snprintf(b_, sizeof b_, __VA_ARGS__); cc_fail(sig, b_); } } while (0)
#define NOTE(...) do { char b_[300]; snprintf(b_, sizeof b_, __VA_ARGS__); cc_note(b_); } while (0)
struct At {
    int old;
    explicit At(int p) : old(mc_proc()) { mc_set_proc(p); }
    ~At() { mc_set_proc(old); }
};
using E = ipmb::Error;

static uint64_t object(uint32_t n) {
    int fd = memfd_create("obj", MFD_CLOEXEC);
    if (fd < 0 || pwrite(fd, &n, 4, 0) != 4) cc_fail("harness", "memfd");
    return fd;
}
static void object_is(uint64_t o, uint32_t n) {
    uint32_t v = 0;
    CHECK(pread((int)o, &v, 4, 0) == 4 && v == n, "another object", "%u instead of %u", v, n);
}
static ipmb::MemoryRegion region(uint32_t n) {
    auto [r, e] = ipmb::MemoryRegion::create(64 + n);
    CHECK(e == E::kSuccess, "no region", "%d", (int)e);
    auto [p, size, e2] = r.map(0, -1);
    CHECK(e2 == E::kSuccess && p && size == 64 + (intptr_t)n, "wrong mapping", "%ld", (long)size);
    memcpy(p, &n, 4);
    return std::move(r);
}
static void region_is(ipmb::MemoryRegion& r, uint32_t n) {
    auto [p, size, e] = r.map(0, -1);
    CHECK(e == E::kSuccess && p && size == 64 + (intptr_t)n, "another region", "%ld bytes", (long)size);
    uint32_t v;
    memcpy(&v, p, 4);
    CHECK(v == n, "another region", "%u instead of %u", v, n);
    auto [q, s2, e3] = r.map(4, 8);
    CHECK(e3 == E::kSuccess && s2 == 8, "wrong mapping", "%ld", (long)s2);
    auto [z, s3, e4] = r.map(60, 1000);
    CHECK(e4 == E::kUnknown && !z && s3 == 0, "a range outside the region was mapped", "%d", (int)e4);
}

static uint64_t attachments(uint32_t depth) {
    ipmb::Selector sel(ipmb::LabelOp("a"), ipmb_ffi::SelectorMode::kUnicast, 0);
    uint8_t bytes[3] = {1, 2, 3};
    std::optional<ipmb::Message> m(std::in_place, sel, (uint16_t)7, bytes, 3u);
    std::vector<uint32_t> mo, mr;
    struct Objs : std::vector<std::pair<uint32_t, uint64_t>> {
        ~Objs() {
            for (auto& o : *this) ipmb_ffi::ipmb_object_drop(o.second);
        }
    } objs;
    std::vector<std::pair<uint32_t, ipmb::MemoryRegion>> regs;
    uint32_t next = 1;
    uint64_t h = 1;
    for (uint32_t d = 0; d < depth; d++) {
        uint32_t c = mc_choose(10);
        NOTE("op %u", c);
        h = h * 11 + c;
        switch (c) {
        case 0:
            m->object_append(object(next));
            mo.push_back(next++);
            break;
        case 1:
            m->memory_region_append(region(next));
            mr.push_back(next++);
            break;
        case 2: {
            uint32_t i = mc_choose(mo.size() + 1);
            auto [o, e] = m->object_retrieve(i);
            if (i < mo.size()) {
                CHECK(e == E::kSuccess, "wrong result", "%d", (int)e);
                object_is(o, mo[i]);
                objs.emplace_back(mo[i], o);
                mo.erase(mo.begin() + i);
            } else {
                CHECK(e == E::kUnknown && o == 0, "wrong result", "%d", (int)e);
            }
            break;
        }
        case 3: {
            uint32_t i = mc_choose(mr.size() + 1);
            auto [r, e] = m->memory_region_retrieve(i);
            if (i < mr.size()) {
                CHECK(e == E::kSuccess, "wrong result", "%d", (int)e);
                region_is(r, mr[i]);
                regs.emplace_back(mr[i], std::move(r));
                mr.erase(mr.begin() + i);
            } else {
                CHECK(e == E::kUnknown, "wrong result", "%d", (int)e);
            }
            break;
        }
        case 4:
            if (objs.empty()) return 0;
            m->object_append(objs[0].second);
            mo.push_back(objs[0].first);
            objs.erase(objs.begin());
            break;
        case 5:
            if (regs.empty()) return 0;
            m->memory_region_append(std::move(regs[0].second));
            mr.push_back(regs[0].first);
            regs.erase(regs.begin());
            break;
        case 6: {
            if (regs.empty()) return 0;
            auto [n0, e0] = regs[0].second.ref_count();
            auto [r, e] = regs[0].second.clone();
            CHECK(e == E::kSuccess, "clone failed", "%d", (int)e);
            auto [n1, e1] = r.ref_count();
            CHECK(e0 == E::kSuccess && e1 == E::kSuccess && n1 == n0 + 1, "wrong reference count", "%u, then %u", n0, n1);
            regs.emplace_back(regs[0].first, std::move(r));
            break;
        }
        case 7:
            if (regs.empty()) return 0;
            regs.erase(regs.begin());
            break;
        case 8:
            m.emplace(sel, (uint16_t)7, bytes, 3u);
            mo.clear();
            mr.clear();
            break;
        case 9: {
            // moves
            ipmb::Message other(std::move(*m));
            *m = std::move(other);
            break;
        }
        }
        auto [f, p, n, e] = m->bytes_data();
        CHECK(e == E::kSuccess && f == 7 && n == 3 && !memcmp(p, bytes, 3), "wrong data", "format %u, %u bytes", f, n);
        for (size_t i = 0; i < mo.size(); i++) {
            auto [o, e] = m->object_get(i);
            CHECK(e == E::kSuccess, "wrong result", "%d", (int)e);
            object_is(o, mo[i]);
        }
        auto [o, e2] = m->object_get(mo.size());
        CHECK(e2 == E::kUnknown && o == 0, "wrong result", "%d", (int)e2);
        for (auto& o : objs) object_is(o.second, o.first);
        for (auto& r : regs) region_is(r.second, r.first);
        int want = mo.size() + mr.size() + objs.size() + regs.size();
        CHECK(mc_fd_count(0) == want, "descriptors are not released once each", "%d open, %d expected", mc_fd_count(0), want);
    }
    return h;
}
extern "C" uint64_t cc_attachments(uint32_t depth) { return attachments(depth); }

struct Probe {
    int* alive;
    explicit Probe(int* a) : alive(a) { ++*alive; }
    Probe(const Probe& o) : alive(o.alive) { ++*alive; }
    ~Probe() { --*alive; }
};
static uint64_t registry(uint32_t depth) {
    int calls[16] = {0}, alive = 0;
    uint64_t h = 1;
    std::vector<int> cb; // allocations with a callback
    {
        std::optional<ipmb::MemoryRegistry> g(std::in_place);
        std::vector<std::pair<int, ipmb::MemoryRegion>> v;
        int n = 0;
        for (uint32_t d = 0; d < depth; d++) {
            uint32_t c = mc_choose(7);
            NOTE("op %u", c);
            h = h * 7 + c;
            int before[16];
            memcpy(before, calls, sizeof calls);
            switch (c) {
            case 0:
            case 1:
            case 2: {
                std::string tag("tag");
                const std::string* t = mc_choose(2) ? &tag : nullptr;
                if (c == 0) {
                    auto [r, e] = g->alloc(100, t);
                    CHECK(e == E::kSuccess, "no region", "%d", (int)e);
                    v.emplace_back(n, std::move(r));
                } else {
                    int* slot = &calls[n];
                    auto [r, e] = g->alloc_with_free(c == 1 ? 100 : 150, t, [slot, p = Probe(&alive)]() { ++*slot; });
                    CHECK(e == E::kSuccess, "no region", "%d", (int)e);
                    v.emplace_back(n, std::move(r));
                    cb.push_back(n);
                }
                n++;
                auto [p, size, e] = v.back().second.map(0, -1);
                CHECK(e == E::kSuccess && size >= (c == 2 ? 150 : 100), "wrong mapping", "%ld", (long)size);
                break;
            }
            case 3:
                if (v.empty()) return 0;
                v.erase(v.begin() + mc_choose(v.size()));
                break;
            case 4:
                CHECK(g->maintain() == E::kSuccess, "wrong result", " ");
                for (int i : cb) {
                    bool used = false;
                    for (auto& x : v) used |= x.first == i;
                    CHECK(used || calls[i] == 1, "a region nobody has is not reported free", "allocation %d: %d calls", i, calls[i]);
                }
                break;
            case 5:
                mc_idle(6000000000);
                break;
            case 6: {
                // an allocation that cannot be: the callback is not called and nothing is left (less than before is
                // possible: allocating also forgets regions nobody has)
                int dummy = 0;
                int64_t l0 = live;
                int a0 = alive;
                {
                    auto [r, e] = g->alloc_with_free(~(uintptr_t)0 / 2, nullptr, [&dummy, p = Probe(&alive)]() { dummy++; });
                    CHECK(e == E::kUnknown, "an impossible region", "%d", (int)e);
                }
                CHECK(alive <= a0 && live <= l0, "a failed allocation leaves something behind", "%d closures, %ld blocks", alive - a0, (long)(live - l0));
                break;
            }
            }
            for (int i = 0; i < 16; i++) {
                if (calls[i] != before[i]) {
                    for (auto& x : v) CHECK(x.first != i, "a region in use is reported free", "allocation %d", i);
                    CHECK(calls[i] == 1, "a callback runs twice", "allocation %d", i);
                }
            }
        }
    }
    for (int i : cb) CHECK(calls[i] == 1, "the callbacks did not run once each", "allocation %d: %d", i, calls[i]);
    CHECK(alive == 0, "a callback is not released", "%d", alive);
    return h;
}
extern "C" uint64_t cc_registry(uint32_t depth) { return registry(depth); }

static std::tuple<ipmb::Sender, ipmb::Receiver> cc_join(int proc, const char* id, ipmb::Label label) {
    At a(proc);
    ipmb::Options o(id, std::move(label), "tok", true);
    auto [t, r, e] = ipmb::join(o, ipmb_ffi::TIMEOUT_INFINITE);
    CHECK(e == E::kSuccess, "join failed", "%d", (int)e);
    return std::make_tuple(std::move(t), std::move(r));
}
static std::vector<uint16_t> drain(int proc, ipmb::Receiver& r) {
    At a(proc);
    std::vector<uint16_t> v;
    for (;;) {
        auto [m, e] = r.recv(0);
        if (e == E::kTimeout) return v;
        CHECK(e == E::kSuccess, "recv failed", "%d", (int)e);
        v.push_back(std::get<0>(m.bytes_data()));
    }
}

static uint64_t labels(const char* id, uint32_t depth) {
    std::vector<std::tuple<ipmb::Sender, ipmb::Receiver>> e;
    e.push_back(cc_join(1, id, ipmb::Label()));
    e.push_back(cc_join(2, id, ipmb::Label{"a"}));
    ipmb::Label l;
    l.append("b");
    e.push_back(cc_join(3, id, std::move(l)));
    ipmb::Label l2{"a"};
    l2.append(std::string("b"));
    e.push_back(cc_join(4, id, std::move(l2)));
    mc_quiesce();
    // one expression grows; a fresh leaf is its right side
    auto leaf = [](uint32_t c, std::vector<bool>& v) -> ipmb::LabelOp {
        switch (c) {
        case 0: v = {false, false, false, false}; return ipmb::LabelOp(false);
        case 1: v = {true, true, true, true}; return ipmb::LabelOp(true);
        case 2: v = {false, true, false, true}; return ipmb::LabelOp("a");
        default: v = {false, false, true, true}; return ipmb::LabelOp(std::string("b"));
        }
    };
    std::vector<bool> want, w;
    ipmb::LabelOp op = leaf(mc_choose(4), want);
    uint32_t n = mc_choose(depth);
    for (uint32_t i = 0; i < n; i++) {
        uint32_t c = mc_choose(9);
        if (c == 0) {
            op.op_not();
            want.flip();
        } else if (c < 5) {
            op.op_and(leaf(c - 1, w));
            for (int k = 0; k < 4; k++) want[k] = want[k] && w[k];
        } else {
            op.op_or(leaf(c - 5, w));
            for (int k = 0; k < 4; k++) want[k] = want[k] || w[k];
        }
    }
    ipmb::Selector sel(std::move(op), ipmb_ffi::SelectorMode::kMulticast, 0);
    for (uint16_t k = 0; k < 2; k++) {
        At a(1);
        ipmb::Message m(sel, 40 + k, (const uint8_t*)"zz", 2);
        CHECK(std::get<0>(e[0]).send(std::move(m)) == E::kSuccess, "send failed", " ");
    }
    mc_quiesce();
    uint64_t h = 1;
    for (int k = 0; k < 4; k++) {
        auto v = drain(1 + k, std::get<1>(e[k]));
        bool got = v == std::vector<uint16_t>{40, 41};
        CHECK(want[k] ? got : v.empty(), "an expression selects other endpoints", "endpoint %d: %zu messages", k, v.size());
        h = h * 2 + want[k];
    }
    for (int k = 3; k >= 0; k--) {
        At a(1 + k);
        e.pop_back();
        mc_quiesce();
    }
    return h;
}
extern "C" uint64_t cc_labels(const char* id, uint32_t depth) { return labels(id, depth); }

static uint64_t bus(const char* id) {
    auto [t1, r1] = cc_join(1, id, ipmb::Label{"one", "all"});
    auto [t2, r2] = cc_join(2, id, ipmb::Label{"two", "all"});
    mc_quiesce();
    int base = mc_fd_count(2);
    uint32_t size[] = {0, 1, 100, 70000};
    uint32_t n = size[mc_choose(4)], no = mc_choose(3), nr = mc_choose(3), how = mc_choose(3);
    bool multi = mc_choose(2);
    std::string d(n, 'q');
    for (uint32_t i = 0; i < n; i++) d[i] = i * 7 + (i >> 8);
    {
        At a(1);
        ipmb::Selector s(multi ? ipmb::LabelOp("all") : ipmb::LabelOp("two"), multi ? ipmb_ffi::SelectorMode::kMulticast : ipmb_ffi::SelectorMode::kUnicast, 0);
        ipmb::Message m(s, 65535, n ? (const uint8_t*)d.data() : nullptr, n);
        for (uint32_t i = 0; i < no; i++) m.object_append(object(10 + i));
        for (uint32_t i = 0; i < nr; i++) m.memory_region_append(region(i));
        CHECK(t1.send(std::move(m)) == E::kSuccess, "send failed", " ");
    }
    mc_quiesce();
    for (int p = multi ? 1 : 2; p <= 2; p++) {
        At a(p);
        auto [m, e] = (p == 1 ? r1 : r2).recv(1000);
        CHECK(e == E::kSuccess, "recv failed", "%d", (int)e);
        auto [f, q, len, e1] = m.bytes_data();
        CHECK(e1 == E::kSuccess && f == 65535 && len == n && (n == 0 || !memcmp(q, d.data(), n)), "wrong data", "format %u, %u bytes", f, len);
        if (how > 0) {
            for (uint32_t i = 0; i < no; i++) {
                auto [o, e] = m.object_retrieve(how == 1 ? 0 : no - 1 - i);
                CHECK(e == E::kSuccess, "wrong result", "%d", (int)e);
                object_is(o, 10 + (how == 1 ? i : no - 1 - i));
                ipmb_ffi::ipmb_object_drop(o);
            }
            for (uint32_t i = 0; i < nr; i++) {
                auto [r, e] = m.memory_region_retrieve(how == 1 ? 0 : nr - 1 - i);
                CHECK(e == E::kSuccess, "wrong result", "%d", (int)e);
                region_is(r, how == 1 ? i : nr - 1 - i);
            }
        }
        auto [o, e2] = m.object_get(how ? 0 : no);
        CHECK(e2 == E::kUnknown && o == 0, "wrong result", "%d", (int)e2);
    }
    CHECK(mc_fd_count(2) == base, "descriptors are not released once each", "%d instead of %d", mc_fd_count(2), base);
    CHECK(drain(1, r1).empty() && drain(2, r2).empty(), "more messages than sent", " ");
    { At a(2); ipmb::Sender x(std::move(t2)); ipmb::Receiver y(std::move(r2)); }
    { At a(1); ipmb::Sender x(std::move(t1)); ipmb::Receiver y(std::move(r1)); }
    mc_quiesce();
    CHECK(mc_fd_count(2) == 0, "a descriptor is left", "%d", mc_fd_count(2));
    return n * 100 + no * 10 + nr;
}
extern "C" uint64_t cc_bus(const char* id) { return bus(id); }

static uint64_t errors(const char* id) {
    auto [t1, r1] = cc_join(1, id, ipmb::Label{"one"});
    mc_quiesce();
    uint32_t c = mc_choose(4);
    At a(2);
    if (c == 0) {
        ipmb::Options o(id, ipmb::Label{"x"}, "wrong", false);
        auto [t, r, e] = ipmb::join(o, ipmb_ffi::TIMEOUT_INFINITE);
        CHECK(e == E::kTokenMismatch, "wrong result", "%d", (int)e);
    } else if (c == 1) {
        std::string other(id);
        ipmb::Options o(other + "n", ipmb::Label{"x"}, "tok", false);
        auto [t, r, e] = ipmb::join(o, 300);
        CHECK(e == E::kTimeout, "wrong result", "%d", (int)e);
    } else if (c == 2) {
        ipmb::Options o(id, ipmb::Label{"x"}, "\xff", false);
        auto [t, r, e] = ipmb::join(o, 300);
        CHECK(e == E::kUnknown, "wrong result", "%d", (int)e);
    } else {
        // options can be used again
        ipmb::Options o(id, ipmb::Label{"x"}, "tok", false);
        for (int k = 0; k < 2; k++) {
            auto [t, r, e] = ipmb::join(o, 300);
            CHECK(e == E::kSuccess, "join failed", "%d", (int)e);
            auto [m, e2] = r.recv(200);
            CHECK(e2 == E::kTimeout, "wrong result", "%d", (int)e2);
        }
    }
    mc_quiesce();
    CHECK(mc_fd_count(2) == 0, "a descriptor is left", "%d", mc_fd_count(2));
    return c;
}
extern "C" uint64_t cc_errors(const char* id) { return errors(id); }
