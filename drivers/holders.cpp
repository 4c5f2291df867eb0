// Random histories of the holders of the C++ runtime against a model. The held objects watch their own lifetime, the
// allocators count and refuse.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <random>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

#include "zserio/AllocatorPropagatingCopy.h"
#include "zserio/AnyHolder.h"
#include "zserio/OptionalHolder.h"
#include "zserio/StringView.h"
#include "zserio/UniquePtr.h"
#include "zserio/pmr/NewDeleteResource.h"
#include "zserio/pmr/PolymorphicAllocator.h"

static std::string g_op;

[[noreturn]] static void fail(const std::string& what)
{
    fflush(stdout);
    fprintf(stderr, "FAILED %s: %s\n", g_op.c_str(), what.c_str());
    fflush(stderr);
    _Exit(7);
}

static void need(bool ok, const char* what)
{
    if (!ok) fail(what);
}

// ---- objects which watch their lifetime

static std::map<const void*, int> g_alive;
static long g_throwIn = -1; // copies until one throws
static size_t g_thrown = 0, g_refused = 0, g_objects = 0;

struct Thrown : std::runtime_error { Thrown() : std::runtime_error("copy failed") {} };

template <int KIND>
struct Watch
{
    // objects of different kinds at one address (first member) can't happen here, so the address identifies the object
    void born()
    {
        g_objects++;
        if (!g_alive.emplace(this, KIND).second) fail("object constructed over a living one");
    }
    void die()
    {
        auto it = g_alive.find(this);
        if (it == g_alive.end()) fail("destruction of something which is no object");
        if (it->second != KIND) fail("destruction of an object as another type");
        g_alive.erase(it);
    }
    void check() const
    {
        auto it = g_alive.find(this);
        if (it == g_alive.end()) fail("use of something which is no living object");
        if (it->second != KIND) fail("use of an object as another type");
    }
    static void mayThrow()
    {
        if (g_throwIn > 0 && --g_throwIn == 0) { g_thrown++; throw Thrown(); }
    }
};

enum { MOVED = -77 };

// small, its moves never throw: kept in place
struct Small : Watch<1>
{
    int32_t v;
    explicit Small(int32_t v_ = 0) : v(v_) { born(); }
    Small(const Small& o) : v(o.v) { o.check(); mayThrow(); born(); }
    Small(Small&& o) noexcept : v(o.v) { o.check(); o.v = MOVED; born(); }
    Small& operator=(const Small& o) { check(); o.check(); mayThrow(); v = o.v; return *this; }
    Small& operator=(Small&& o) noexcept { check(); o.check(); v = o.v; o.v = MOVED; return *this; }
    ~Small() { die(); }
    int32_t get() const { check(); return v; }
    bool operator==(const Small& o) const { return get() == o.get(); }
    bool operator<(const Small& o) const { return get() < o.get(); }
    static Small make(int32_t v) { return Small(v); }
    bool init() const { return true; }
};

// big: kept on the heap
struct Big : Watch<2>
{
    int32_t v;
    int64_t pad[9];
    explicit Big(int32_t v_ = 0) : v(v_) { born(); for (auto& p : pad) p = v; }
    Big(const Big& o) : v(o.v) { o.get(); mayThrow(); born(); memcpy(pad, o.pad, sizeof(pad)); }
    Big(Big&& o) noexcept : v(o.v) { o.get(); born(); memcpy(pad, o.pad, sizeof(pad)); o.set(MOVED); }
    Big& operator=(const Big& o) { check(); o.get(); mayThrow(); set(o.v); return *this; }
    Big& operator=(Big&& o) noexcept { check(); o.get(); set(o.v); o.set(MOVED); return *this; }
    ~Big() { get(); die(); }
    void set(int32_t x) { v = x; for (auto& p : pad) p = x; }
    int32_t get() const
    {
        check();
        for (auto& p : pad) need(p == v, "the object is damaged");
        return v;
    }
    bool operator==(const Big& o) const { return get() == o.get(); }
    bool operator<(const Big& o) const { return get() < o.get(); }
    static Big make(int32_t v) { return Big(v); }
    bool init() const { return true; }
};

// small, but its moves may throw, and it can be copied without being initialized
struct NoIn : Watch<3>
{
    int32_t v;
    bool m_init;
    explicit NoIn(int32_t v_ = 0, bool i = true) : v(v_), m_init(i) { born(); }
    NoIn(const NoIn& o) : v(o.v), m_init(o.m_init) { o.check(); mayThrow(); born(); }
    NoIn(NoIn&& o) : v(o.v), m_init(o.m_init) { o.check(); mayThrow(); o.v = MOVED; born(); }
    NoIn(zserio::NoInitT, const NoIn& o) : v(o.v), m_init(false) { o.check(); mayThrow(); born(); }
    NoIn(zserio::NoInitT, NoIn&& o) : v(o.v), m_init(false) { o.check(); mayThrow(); o.v = MOVED; born(); }
    NoIn& operator=(const NoIn& o) { check(); o.check(); mayThrow(); v = o.v; m_init = o.m_init; return *this; }
    NoIn& operator=(NoIn&& o) { check(); o.check(); mayThrow(); v = o.v; m_init = o.m_init; o.v = MOVED; return *this; }
    NoIn& assign(zserio::NoInitT, const NoIn& o) { check(); o.check(); v = o.v; m_init = false; return *this; }
    NoIn& assign(zserio::NoInitT, NoIn&& o) { check(); o.check(); v = o.v; m_init = false; o.v = MOVED; return *this; }
    ~NoIn() { die(); }
    int32_t get() const { check(); return v; }
    bool operator==(const NoIn& o) const { return get() == o.get(); }
    bool operator<(const NoIn& o) const { return get() < o.get(); }
    static NoIn make(int32_t v) { return NoIn(v); }
    bool init() const { return m_init; }
};

// the same in place
struct NoInSmall : Watch<4>
{
    int32_t v : 31;
    uint32_t m_init : 1;
    explicit NoInSmall(int32_t v_ = 0, bool i = true) : v(v_), m_init(i) { born(); }
    NoInSmall(const NoInSmall& o) : v(o.v), m_init(o.m_init) { o.check(); mayThrow(); born(); }
    NoInSmall(NoInSmall&& o) noexcept : v(o.v), m_init(o.m_init) { o.check(); o.v = MOVED; born(); }
    NoInSmall(zserio::NoInitT, const NoInSmall& o) : v(o.v), m_init(0) { o.check(); mayThrow(); born(); }
    NoInSmall(zserio::NoInitT, NoInSmall&& o) noexcept : v(o.v), m_init(0) { o.check(); o.v = MOVED; born(); }
    NoInSmall& operator=(const NoInSmall& o) { check(); o.check(); mayThrow(); v = o.v; m_init = o.m_init; return *this; }
    NoInSmall& operator=(NoInSmall&& o) noexcept { check(); o.check(); v = o.v; m_init = o.m_init; o.v = MOVED; return *this; }
    ~NoInSmall() { die(); }
    int32_t get() const { check(); return v; }
    bool operator==(const NoInSmall& o) const { return get() == o.get(); }
    bool operator<(const NoInSmall& o) const { return get() < o.get(); }
    static NoInSmall make(int32_t v) { return NoInSmall(v); }
    bool init() const { return m_init != 0; }
};

// ---- allocators

struct Resource : zserio::pmr::MemoryResource
{
    size_t live = 0, allocs = 0;
    static long refuseIn;
    std::map<void*, size_t> blocks;
    void* doAllocate(size_t n, size_t al) override
    {
        if (refuseIn > 0 && --refuseIn == 0) { g_refused++; throw std::bad_alloc(); }
        void* p = zserio::pmr::getNewDeleteResource()->allocate(n, al);
        blocks[p] = n;
        live += n;
        allocs++;
        return p;
    }
    void doDeallocate(void* p, size_t n, size_t al) override
    {
        auto it = blocks.find(p);
        if (it == blocks.end()) fail("memory returned to the wrong allocator");
        if (it->second != n) fail("memory returned with another size");
        blocks.erase(it);
        live -= n;
        zserio::pmr::getNewDeleteResource()->deallocate(p, n, al);
    }
    bool doIsEqual(const zserio::pmr::MemoryResource& o) const noexcept override { return this == &o; }
};
long Resource::refuseIn = -1;
static Resource* g_res[3];

struct None : zserio::pmr::MemoryResource
{
    void* doAllocate(size_t, size_t) override { fail("allocation from the default resource"); }
    void doDeallocate(void*, size_t, size_t) override { fail("deallocation to the default resource"); }
    bool doIsEqual(const zserio::pmr::MemoryResource& o) const noexcept override { return this == &o; }
};

template <typename A> struct Allocs;
template <typename T> struct Allocs<std::allocator<T>>
{
    enum { propagates = 1, counts = 0, defaults = 1 };
    static std::allocator<T> get(size_t) { return {}; }
    static size_t number(const std::allocator<T>&) { return 0; }
    template <typename H> static bool is(const H&, size_t) { return true; }
};
template <typename T> struct Allocs<zserio::pmr::PropagatingPolymorphicAllocator<T>>
{
    enum { propagates = 1, counts = 1, defaults = 0 };
    static zserio::pmr::PropagatingPolymorphicAllocator<T> get(size_t i) { return {g_res[i]}; }
    template <typename H> static bool is(const H& h, size_t i) { return h.get_allocator().resource() == g_res[i]; }
};
template <typename T> struct Allocs<zserio::pmr::PolymorphicAllocator<T>>
{
    enum { propagates = 0, counts = 1, defaults = 0 };
    static zserio::pmr::PolymorphicAllocator<T> get(size_t i) { return {g_res[i]}; }
    template <typename H> static bool is(const H& h, size_t i) { return h.get_allocator().resource() == g_res[i]; }
};

struct Rnd
{
    std::mt19937 g;
    explicit Rnd(uint32_t s) : g(s) {}
    size_t operator()(size_t n) { return std::uniform_int_distribution<size_t>(0, n - 1)(g); }
};

static size_t g_steps = 0, g_checks = 0, g_errors = 0;

// Runs one operation with faults injected; true when it was done.
template <typename F>
bool faulty(Rnd& r, F f)
{
    if (r(6) == 0) g_throwIn = 1 + static_cast<long>(r(3));
    if (r(6) == 0) Resource::refuseIn = 1 + static_cast<long>(r(2));
    bool done = false;
    try
    {
        f();
        done = true;
    }
    catch (const Thrown&) {}
    catch (const std::bad_alloc&) {}
    g_throwIn = Resource::refuseIn = -1;
    if (!done) g_errors++;
    return done;
}

template <typename F>
void mustThrow(F f, const char* what)
{
    try
    {
        f();
    }
    catch (const zserio::CppRuntimeException&)
    {
        g_checks++;
        return;
    }
    fail(what);
}

// ---- AnyHolder

struct Model
{
    int type = 0; // 0: empty, -1: unknown (moved from or after a failure)
    int32_t v = 0;
    bool init = true;
    size_t res = 0;
    explicit Model(int t = 0, int32_t v_ = 0, bool i = true, size_t r = 0) : type(t), v(v_), init(i), res(r) {}
};

template <typename ALLOC>
struct AnyHistory
{
    using H = zserio::AnyHolder<ALLOC>;
    using A = Allocs<ALLOC>;
    struct Slot { std::unique_ptr<H> p; Model m; };
    Slot s[5];
    Rnd& r;

    explicit AnyHistory(Rnd& r_) : r(r_) {}

    template <typename T>
    void verifyType(const Slot& x, int t)
    {
        const H& h = *x.p;
        need(h.template isType<T>() == (x.m.type == t), "isType");
        if (x.m.type == t)
        {
            need(h.template get<T>().get() == x.m.v, "the value");
            need(x.p->template get<T>().get() == x.m.v, "the value by the mutable getter");
            need(h.template get<T>().init() == x.m.init, "whether the value is initialized");
        }
        else
        {
            mustThrow([&] { (void)h.template get<T>(); }, "get of another type is not refused");
        }
    }

    void verify()
    {
        bool owned[3] = {false, false, false};
        for (auto& x : s)
        {
            if (!x.p) continue;
            g_checks++;
            need(A::is(*x.p, x.m.res), "the allocator of the holder");
            if (x.m.type != 0) owned[x.m.res] = true;
            if (x.m.type < 0) { (void)x.p->hasValue(); continue; }
            need(x.p->hasValue() == (x.m.type > 0), "hasValue");
            verifyType<Small>(x, 1);
            verifyType<Big>(x, 2);
            verifyType<NoIn>(x, 3);
            verifyType<NoInSmall>(x, 4);
        }
        if (A::counts)
            for (size_t i = 0; i < 3; ++i)
                need(owned[i] || g_res[i]->live == 0, "memory of an allocator nobody uses");
    }

    template <typename T>
    bool setTo(H& h, int32_t v, size_t how)
    {
        T val = T::make(v);
        return faulty(r, [&] {
            switch (how)
            {
            case 0: h.set(val); break;
            case 1: h.set(std::move(val)); break;
            // only rvalues are kept from being initialized
            case 2:
            case 3: h.set(zserio::NoInit, std::move(val)); break;
            case 4: h = val; break;
            default: h = std::move(val); break;
            }
        });
    }

    template <typename T>
    H* make(int32_t v, size_t how, size_t a)
    {
        T val = T::make(v);
        H* h = nullptr;
        faulty(r, [&] {
            switch (how)
            {
            case 0: case 4: h = new H(val, A::get(a)); break;
            case 1: case 5: h = new H(std::move(val), A::get(a)); break;
                        default: h = new H(zserio::NoInit, std::move(val), A::get(a)); break;
            }
        });
        return h;
    }

    void noInit(Model& m) { if (m.type == 3 || m.type == 4) m.init = false; }

    void step()
    {
        size_t i = r(5), k = r(5), a = r(3), op = r(19);
        Slot& x = s[i];
        Slot& y = s[k];
        g_op = "AnyHolder op " + std::to_string(op) + " slot " + std::to_string(i) + " other " + std::to_string(k) + " type " +
               std::to_string(x.m.type) + " other type " + std::to_string(y.m.type);
        g_steps++;
        bool src = i != k && y.p && y.m.type >= 0;
        int32_t v = static_cast<int32_t>(r(100000));
        int t = static_cast<int>(1 + r(4));
        size_t how = r(6);
        Model m = y.m;
        if (op <= 2 || op == 18)
        {
            if (!x.p || op == 18)
            {
                x.p.reset();
                switch (t)
                {
                case 1: x.p.reset(make<Small>(v, how, a)); break;
                case 2: x.p.reset(make<Big>(v, how, a)); break;
                case 3: x.p.reset(make<NoIn>(v, how, a)); break;
                default: x.p.reset(make<NoInSmall>(v, how, a)); break;
                }
                x.m = Model{t, v, true, a};
                if (how == 2 || how == 3) noInit(x.m);
                return;
            }
            bool ok = t == 1 ? setTo<Small>(*x.p, v, how) : t == 2 ? setTo<Big>(*x.p, v, how) :
                      t == 3 ? setTo<NoIn>(*x.p, v, how) : setTo<NoInSmall>(*x.p, v, how);
            x.m = Model{ok ? t : -1, v, true, x.m.res};
            if (how == 2 || how == 3) noInit(x.m);
        }
        else if (op == 3)
        {
            x.p.reset(new H(A::get(a)));
            x.m = Model{0, 0, true, a};
        }
        else if (op == 4)
        {
            if (x.p) { x.p->reset(); x.m.type = 0; need(!x.p->hasValue(), "hasValue after reset"); }
        }
        else if (op == 5)
        {
            x.p.reset();
        }
        else if (op == 6)
        {
            // change by reference
            if (x.p && x.m.type == 1) { x.p->template get<Small>().v = v; x.m.v = v; }
            if (x.p && x.m.type == 2) { x.p->template get<Big>().set(v); x.m.v = v; }
        }
        else if (op == 7)
        {
            if (x.p) { H& self = *x.p; *x.p = self; }
        }
        else if (!src)
        {
            return;
        }
        else if (op <= 12)
        {
            // new holders; copies of holders with allocators which don't propagate use the default resource
            if (!A::propagates && (op == 8 || op == 10)) return;
            x.p.reset();
            H* h = nullptr;
            bool ok = faulty(r, [&] {
                switch (op)
                {
                case 8: h = new H(*y.p); break;
                case 9: h = new H(*y.p, A::get(a)); m.res = a; break;
                case 10: h = new H(zserio::NoInit, *y.p); noInit(m); break;
                case 11: h = new H(zserio::NoInit, *y.p, A::get(a)); m.res = a; noInit(m); break;
                default:
                    m.res = a;
                    switch (y.m.type)
                    {
                    case 2: h = new H(zserio::allocatorPropagatingCopy<Big>(*y.p, A::get(a))); break;
                    case 3: h = new H(zserio::allocatorPropagatingCopy<NoIn>(*y.p, A::get(a))); break;
                    case 4: h = new H(zserio::allocatorPropagatingCopy<NoInSmall>(*y.p, A::get(a))); break;
                    default: h = new H(zserio::allocatorPropagatingCopy<Small>(*y.p, A::get(a))); break;
                    }
                }
            });
            x.p.reset(h);
            x.m = m;
            (void)ok;
        }
        else if (op <= 14)
        {
            if (!x.p) return;
            bool ok = faulty(r, [&] {
                if (op == 13) *x.p = *y.p;
                else { x.p->assign(zserio::NoInit, *y.p); noInit(m); }
            });
            size_t res = A::propagates ? y.m.res : x.m.res;
            x.m = m;
            x.m.res = res;
            if (!ok)
            {
                x.m.type = -1;
                if (A::counts)
                    for (size_t q = 0; q < 3; ++q) if (A::is(*x.p, q)) x.m.res = q;
            }
        }
        else if (op <= 16)
        {
            if (!x.p) return;
            bool other = !A::propagates && x.m.res != y.m.res;
            bool ok = true;
            auto f = [&] {
                if (op == 15) *x.p = std::move(*y.p);
                else { x.p->assign(zserio::NoInit, std::move(*y.p)); if (other || y.m.type == 1 || y.m.type == 4) noInit(m); }
            };
            if (y.m.type == 3 || other) ok = faulty(r, f);
            else f();
            size_t res = A::propagates ? y.m.res : x.m.res;
            x.m = m;
            x.m.res = res;
            if (!ok) x.m.type = -1;
            y.m.type = -1;
        }
        else
        {
            x.p.reset();
            H* h = nullptr;
            size_t how2 = r(3);
            auto f = [&] {
                if (how2 == 0) { h = new H(std::move(*y.p)); }
                else if (how2 == 1) { h = new H(std::move(*y.p), A::get(a)); m.res = a; }
                else { h = new H(zserio::NoInit, std::move(*y.p), A::get(a)); m.res = a; if ((A::counts && y.m.res != a) || y.m.type == 1 || y.m.type == 4) noInit(m); }
            };
            if (how2 != 0) faulty(r, f);
            else f();
            x.p.reset(h);
            x.m = m;
            y.m.type = -1;
        }
    }
};

// ---- optional holders

template <typename H, typename T> struct OptTraits;
template <typename T> struct OptTraits<zserio::InplaceOptionalHolder<T>, T>
{
    using H = zserio::InplaceOptionalHolder<T>;
    enum { propagates = 1, counts = 0 };
    static H* empty(size_t) { return new H(); }
    static H* null(size_t) { return new H(zserio::NullOpt); }
    static H* val(const T& v, size_t) { return new H(v); }
    static H* val(T&& v, size_t) { return new H(std::move(v)); }
    static H* place(int32_t v, size_t) { return new H(zserio::InPlace, v); }
    static H* copy(const H& h, size_t) { return new H(h); }
    static H* move(H&& h, size_t) { return new H(std::move(h)); }
    static H* prop(const H& h, size_t) { return new H(zserio::allocatorPropagatingCopy(h, std::allocator<uint8_t>())); }
    static bool is(const H&, size_t) { return true; }
};
template <typename T, typename ALLOC> struct OptTraits<zserio::HeapOptionalHolder<T, ALLOC>, T>
{
    using H = zserio::HeapOptionalHolder<T, ALLOC>;
    using A = Allocs<ALLOC>;
    enum { propagates = A::propagates, counts = A::counts };
    static H* empty(size_t a) { return new H(A::get(a)); }
    static H* null(size_t a) { return new H(zserio::NullOpt, A::get(a)); }
    static H* val(const T& v, size_t a) { return new H(v, A::get(a)); }
    static H* val(T&& v, size_t a) { return new H(std::move(v), A::get(a)); }
    static H* place(int32_t v, size_t a) { return new H(A::get(a), v); }
    static H* copy(const H& h, size_t a) { return new H(h, A::get(a)); }
    static H* move(H&& h, size_t a) { return new H(std::move(h), A::get(a)); }
    static H* prop(const H& h, size_t a) { return new H(zserio::allocatorPropagatingCopy(h, A::get(a))); }
    static bool is(const H& h, size_t a) { return A::is(h, a); }
};

template <typename T, typename H, typename std::enable_if<std::is_constructible<T, zserio::NoInitT, T>::value, int>::type = 0>
void assignNoInit(H& x, H& y, bool move)
{
    if (move) x.assign(zserio::NoInit, std::move(y));
    else x.assign(zserio::NoInit, static_cast<const H&>(y));
}
template <typename T, typename H, typename std::enable_if<!std::is_constructible<T, zserio::NoInitT, T>::value, int>::type = 0>
void assignNoInit(H& x, H& y, bool move)
{
    if (move) x = std::move(y);
    else x = static_cast<const H&>(y);
}
template <typename T, typename H, typename std::enable_if<std::is_constructible<T, zserio::NoInitT, T>::value, int>::type = 0>
H* copyNoInit(H& y, bool move) { return move ? new H(zserio::NoInit, std::move(y)) : new H(zserio::NoInit, static_cast<const H&>(y)); }
template <typename T, typename H, typename std::enable_if<!std::is_constructible<T, zserio::NoInitT, T>::value, int>::type = 0>
H* copyNoInit(H& y, bool move) { return move ? new H(std::move(y)) : new H(static_cast<const H&>(y)); }

template <typename T, typename H>
struct OptHistory
{
    using O = OptTraits<H, T>;
    enum { noinit = std::is_constructible<T, zserio::NoInitT, T>::value };
    struct Slot { std::unique_ptr<H> p; Model m; };
    Slot s[5];
    Rnd& r;
    const char* name;
    bool defaultRes = false;
    OptHistory(Rnd& r_, const char* n) : r(r_), name(n) {}

    void verify()
    {
        bool owned[3] = {false, false, false};
        for (auto& x : s)
        {
            if (!x.p) continue;
            g_checks++;
            need(O::is(*x.p, x.m.res), "the allocator of the holder");
            if (x.m.type != 0) owned[x.m.res] = true;
            if (x.m.type < 0) continue;
            const H& h = *x.p;
            need(h.hasValue() == (x.m.type > 0), "hasValue");
            need(static_cast<bool>(h) == h.hasValue(), "operator bool");
            if (x.m.type > 0)
            {
                need((*h).get() == x.m.v, "the value by operator*");
                need(h.value().get() == x.m.v && x.p->value().get() == x.m.v, "the value");
                need(h->get() == x.m.v && (*x.p)->get() == x.m.v, "the value by operator->");
                need(h->init() == x.m.init, "whether the value is initialized");
            }
            else
            {
                mustThrow([&] { (void)*h; }, "operator* of an empty holder is not refused");
                mustThrow([&] { (void)x.p->value(); }, "value of an empty holder is not refused");
                mustThrow([&] { (void)h->get(); }, "operator-> of an empty holder is not refused");
            }
            for (auto& y : s)
            {
                if (!y.p || y.m.type < 0) continue;
                need((*x.p == *y.p) == (x.m.type == y.m.type && (x.m.type == 0 || x.m.v == y.m.v)), "equality");
                bool less = x.m.type && y.m.type ? x.m.v < y.m.v : !x.m.type && y.m.type;
                need((*x.p < *y.p) == less, "order");
            }
        }
        if (O::counts)
            for (size_t i = 0; i < 3; ++i)
                need(owned[i] || g_res[i]->live == 0, "memory of an allocator nobody uses");
    }

    void step()
    {
        size_t i = r(5), k = r(5), a = r(3), op = r(17);
        Slot& x = s[i];
        Slot& y = s[k];
        g_op = std::string(name) + " op " + std::to_string(op) + " slot " + std::to_string(i) + " other " + std::to_string(k);
        g_steps++;
        bool src = i != k && y.p && y.m.type >= 0;
        int32_t v = static_cast<int32_t>(r(6));
        Model m = y.m;
        H* h = nullptr;
        switch (op)
        {
        case 0:
            x.p.reset();
            x.p.reset(r(2) ? O::empty(a) : O::null(a));
            x.m = Model{0, 0, true, a};
            return;
        case 1: case 2: case 3:
        {
            x.p.reset();
            T val(v);
            faulty(r, [&] { h = op == 1 ? O::val(val, a) : op == 2 ? O::val(std::move(val), a) : O::place(v, a); });
            x.p.reset(h);
            x.m = Model{1, v, true, a};
            return;
        }
        case 4:
            x.p.reset();
            return;
        case 5:
            if (!x.p) return;
            x.p->reset();
            x.m.type = 0;
            return;
        case 6: case 7:
        {
            if (!x.p) return;
            T val(v);
            bool ok = faulty(r, [&] { if (op == 6) *x.p = val; else *x.p = std::move(val); });
            x.m = Model{ok ? 1 : -1, v, true, x.m.res};
            return;
        }
        case 8:
            if (!x.p) return;
            { H& self = *x.p; *x.p = self; }
            return;
        default:
            break;
        }
        if (!src) return;
        bool other = !O::propagates && y.p && x.p && x.m.res != y.m.res;
        switch (op)
        {
        case 9: case 10: case 11:
            if (!O::propagates && op == 9) return;
            x.p.reset();
            faulty(r, [&] {
                if (op == 9) h = new H(*y.p);
                else { h = op == 10 ? O::copy(*y.p, a) : O::prop(*y.p, a); m.res = a; }
            });
            x.p.reset(h);
            x.m = m;
            return;
        case 12:
        {
            if (!x.p) return;
            size_t res = O::propagates ? m.res : x.m.res;
            bool ok = faulty(r, [&] { *x.p = *y.p; });
            if (!ok && O::counts) for (size_t q = 0; q < 3; ++q) if (O::is(*x.p, q)) res = q;
            x.m = m;
            x.m.res = res;
            if (!ok) x.m.type = -1;
            return;
        }
        case 13:
        {
            if (!x.p) return;
            size_t res = O::propagates ? m.res : x.m.res;
            bool ok = faulty(r, [&] { *x.p = std::move(*y.p); });
            if (!ok && O::counts) for (size_t q = 0; q < 3; ++q) if (O::is(*x.p, q)) res = q;
            x.m = m;
            x.m.res = res;
            if (!ok) x.m.type = -1;
            y.m.type = -1;
            return;
        }
        case 14:
            x.p.reset();
            if (r(2))
            {
                faulty(r, [&] { h = new H(std::move(*y.p)); });
            }
            else
            {
                m.res = a;
                faulty(r, [&] { h = O::move(std::move(*y.p), a); });
            }
            x.p.reset(h);
            x.m = m;
            y.m.type = -1;
            return;
        case 15:
        {
            if (!x.p || !noinit) return;
            bool mv = r(2) != 0;
            size_t res = O::propagates ? m.res : x.m.res;
            bool ok = faulty(r, [&] { assignNoInit<T>(*x.p, *y.p, mv); });
            if (!ok && O::counts) for (size_t q = 0; q < 3; ++q) if (O::is(*x.p, q)) res = q;
            x.m = m;
            x.m.res = res;
            // heap holders hand over the object itself
            if (!mv || !heap() || other) x.m.init = false;
            if (!ok) x.m.type = -1;
            if (mv) y.m.type = -1;
            return;
        }
        default:
        {
            if (!noinit || !O::propagates) return;
            bool mv = r(2) != 0;
            x.p.reset();
            faulty(r, [&] { h = copyNoInit<T>(*y.p, mv); });
            x.p.reset(h);
            x.m = m;
            if (!mv || !heap()) x.m.init = false;
            if (mv) y.m.type = -1;
            return;
        }
        }
    }
    bool heap() const { return name[0] == 'H'; }
};

template <typename HIST>
void history(HIST&& h, size_t steps)
{
    for (size_t i = 0; i < steps; ++i)
    {
        h.step();
        h.verify();
    }
    for (auto& x : h.s) x.p.reset();
    g_op += " (end)";
    need(g_alive.empty(), "objects which are never destroyed");
    for (auto* x : g_res) need(x->live == 0, "memory which is never freed");
}

// ---- string views against std::string

static int sign(int x) { return x < 0 ? -1 : x > 0; }

static void views(Rnd& r, size_t n)
{
    using zserio::StringView;
    const size_t npos = std::string::npos;
    need(StringView::npos == npos, "npos");
    for (size_t i = 0; i < n; ++i)
    {
        g_op = "StringView";
        g_steps++;
        std::string a, b;
        for (size_t k = r(9); k > 0; --k) a += "ab\0c"[r(4)];
        for (size_t k = r(4); k > 0; --k) b += "ab\0c"[r(4)];
        if (r(3) == 0 && !a.empty()) b = a.substr(r(a.size()), r(4));
        std::vector<char> ax(a.begin(), a.end()), bx(b.begin(), b.end()); // no terminating zero: reads beyond the end are seen
        StringView v(ax.data(), ax.size()), w(bx.data(), bx.size());
        size_t p = r(4) == 0 ? npos : r(12), c = r(4) == 0 ? npos : r(6);
        g_op = "StringView of " + std::to_string(a.size()) + " and " + std::to_string(b.size()) + " chars, pos " + std::to_string(p);
        need(v.size() == a.size() && v.length() == a.size() && v.empty() == a.empty(), "size");
        need(sign(v.compare(w)) == sign(a.compare(b)), "compare");
        need((v == w) == (a == b) && (v != w) == (a != b) && (v < w) == (a < b) && (v > w) == (a > b) && (v <= w) == (a <= b) &&
             (v >= w) == (a >= b), "operators");
        if (b.empty()) continue; // searches of nothing find nothing here
        need(v.find(w, p) == a.find(b, p), "find");
        need(v.rfind(w, p) == a.rfind(b, p), "rfind");
        need(v.find_first_of(w, p) == a.find_first_of(b, p), "find_first_of");
        need(v.find_last_of(w, p) == a.find_last_of(b, p), "find_last_of");
        need(v.find_first_not_of(w, p) == a.find_first_not_of(b, p), "find_first_not_of");
        need(v.find_last_not_of(w, p) == a.find_last_not_of(b, p), "find_last_not_of");
        need(v.find('b', p) == a.find('b', p) && v.rfind('b', p) == a.rfind('b', p), "find of a char");
        need(v.find_first_not_of('a', p) == a.find_first_not_of('a', p) && v.find_last_not_of('a', p) == a.find_last_not_of('a', p),
             "find of another char");
        bool threw = false;
        try
        {
            StringView x = v.substr(p, c);
            need(p <= a.size() && zserio::stringViewToString(x, std::allocator<char>()) == a.substr(p, c), "substr");
            StringView y = v;
            size_t cut = r(a.size() + 1);
            y.remove_prefix(cut);
            need(zserio::stringViewToString(y, std::allocator<char>()) == a.substr(cut), "remove_prefix");
            y = v;
            y.remove_suffix(cut);
            need(zserio::stringViewToString(y, std::allocator<char>()) == a.substr(0, a.size() - cut), "remove_suffix");
            std::string out(20, '#');
            size_t m = v.copy(&out[0], c, p);
            need(m == std::min(c, a.size() - p) && out.substr(0, m) == a.substr(p, c) && out[m] == '#', "copy");
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        need(threw == (p > a.size()), "position beyond the end");
        if (!a.empty())
        {
            size_t k = r(a.size());
            need(v[k] == a[k] && v.front() == a.front() && v.back() == a.back() && v.at(k) == a[k], "chars");
        }
        g_checks++;
    }
}

int main(int argc, char** argv)
{
    if (argc != 3) return 2;
    Rnd r(static_cast<uint32_t>(std::stoul(argv[1])));
    size_t steps = std::stoul(argv[2]);
    None none;
    zserio::pmr::setDefaultResource(&none);
    Resource res[3];
    for (size_t i = 0; i < 3; ++i) g_res[i] = &res[i];
    using Prop = zserio::pmr::PropagatingPolymorphicAllocator<uint8_t>;
    using Poly = zserio::pmr::PolymorphicAllocator<uint8_t>;
    while (g_steps < steps)
    {
        size_t n = 5 + r(60);
        switch (r(11))
        {
        case 0: history(AnyHistory<std::allocator<uint8_t>>(r), n); break;
        case 1: history(AnyHistory<Prop>(r), n); break;
        case 2: history(AnyHistory<Poly>(r), n); break;
        case 3: history(OptHistory<Small, zserio::InplaceOptionalHolder<Small>>(r, "Inplace Small"), n); break;
        case 4: history(OptHistory<NoIn, zserio::InplaceOptionalHolder<NoIn>>(r, "Inplace NoIn"), n); break;
        case 5: history(OptHistory<Big, zserio::HeapOptionalHolder<Big, std::allocator<Big>>>(r, "Heap Big"), n); break;
        case 6: history(OptHistory<Big, zserio::HeapOptionalHolder<Big, zserio::pmr::PropagatingPolymorphicAllocator<Big>>>(r, "Heap Big Prop"), n); break;
        case 7: history(OptHistory<NoIn, zserio::HeapOptionalHolder<NoIn, zserio::pmr::PropagatingPolymorphicAllocator<NoIn>>>(r, "Heap NoIn Prop"), n); break;
        case 8: history(OptHistory<NoIn, zserio::HeapOptionalHolder<NoIn, zserio::pmr::PolymorphicAllocator<NoIn>>>(r, "Heap NoIn Poly"), n); break;
        case 9: history(OptHistory<NoInSmall, zserio::InplaceOptionalHolder<NoInSmall>>(r, "Inplace NoInSmall"), n); break;
        default: views(r, n); break;
        }
    }
    size_t allocs = 0;
    for (auto& x : res) allocs += x.allocs;
    printf("steps=%zu checks=%zu failed-operations=%zu throws=%zu refusals=%zu objects=%zu allocations=%zu\n", g_steps, g_checks, g_errors,
           g_thrown, g_refused, g_objects, allocs);
    return 0;
}
