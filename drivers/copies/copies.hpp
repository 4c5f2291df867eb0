// Histories of copies, moves, assignments and destructions of objects of one generated type.
#ifndef DRV_COPIES_HPP
#define DRV_COPIES_HPP
#include <array>
#include <sstream>
#include "zserio/AllocatorPropagatingCopy.h"

namespace copies
{
#ifdef DRV_PMR
using Alloc = zserio::pmr::PropagatingPolymorphicAllocator<>;
struct Env
{
    CountingResource res[3];
    Alloc alloc(size_t k) { return Alloc(&res[k]); }
    size_t live(size_t k) const { return res[k].live; }
    void fail(long n) { for (auto& r : res) r.failIn = n; }
};
#else
using Alloc = std::allocator<uint8_t>;
struct Env
{
    Alloc alloc(size_t) { return Alloc(); }
    size_t live(size_t) const { return 0; }
    void fail(long) {}
};
#endif

struct Fail : std::logic_error { using std::logic_error::logic_error; };

template <typename T>
std::string written(const T& o)
{
    size_t n = o.bitSizeOf(0);
    std::vector<uint8_t> out((n + 7) / 8);
    Exact x(out);
    memset(x.p.get(), 0, x.n);
    zserio::BitStreamWriter w(x.p.get(), n, zserio::BitsTag());
    o.write(w);
    return bitsOf(std::vector<uint8_t>(x.p.get(), x.p.get() + x.n), 0, w.getBitPosition());
}

template <typename T>
struct Slot
{
    std::unique_ptr<T> p;
    int value = -1;     // number of the value, -1: moved from
    size_t res = 0;     // number of the allocator
};

template <typename T>
std::string run(const Args& a)
{
    Env env;
    std::vector<std::string> texts, bits;
    std::vector<uint32_t> hashes;
    std::vector<std::vector<uint8_t>> data;
    std::vector<size_t> sizes;
    for (size_t i = 3; i < a.size(); ++i)
    {
        size_t c = a[i].find(':');
        data.push_back(unhex(a[i].substr(c + 1)));
        sizes.push_back(std::stoul(a[i].substr(0, c)));
        Exact e(data.back());
        zserio::BitStreamReader in(e.p.get(), sizes.back(), zserio::BitsTag());
        T o(in);
        texts.push_back(text(o));
        bits.push_back(written(o));
        hashes.push_back(o.hashCode());
    }
    // values with NaN differ from themselves
    std::vector<std::vector<bool>> equal(data.size(), std::vector<bool>(data.size()));
    for (size_t i = 0; i < data.size(); ++i)
        for (size_t k = 0; k < data.size(); ++k)
        {
            Exact e(data[i]), f(data[k]);
            zserio::BitStreamReader in(e.p.get(), sizes[i], zserio::BitsTag()), jn(f.p.get(), sizes[k], zserio::BitsTag());
            T o(in), q(jn);
            equal[i][k] = o == q;
        }
    size_t steps = 0, seen = 0, failed = 0;
    {
        std::array<Slot<T>, 5> slots;
#ifdef DRV_PMR
        struct Guard
        {
            zserio::pmr::MemoryResource* old;
            CountingResource none;
            Guard() { none.refuse = true; old = zserio::pmr::setDefaultResource(&none); }
            ~Guard() { zserio::pmr::setDefaultResource(old); }
        } guard;
#endif
        std::istringstream is(a[2]);
        std::string x;
        while (std::getline(is, x, ' '))
        {
            // <operation><slot><other slot or value><allocator>
            char k = x[0];
            Slot<T>& s = slots[static_cast<size_t>(x[1] - '0')];
            size_t y = static_cast<size_t>(x[2] - '0'), z = static_cast<size_t>(x[3] - '0');
            Slot<T>& o = slots[y % slots.size()];
            // operations which need a value or a target are left out when there is none
            bool src = o.p && o.value >= 0, both = src && s.p && &s != &o;
            if (strchr("cmpqaAsvCPB", k) && !src) continue;
            if (strchr("aAsB", k) && !(k == 'a' ? s.p != nullptr : both)) continue;
            if (strchr("cmpqvCP", k) && &s == &o) continue;
            steps++;
            switch (k)
            {
            case 'x':
                s.p.reset();
                break;
            case 'r':
            {
                Exact e(data[y]);
                zserio::BitStreamReader in(e.p.get(), sizes[y], zserio::BitsTag());
                s.p.reset(new T(in, env.alloc(z)));
                s.value = static_cast<int>(y);
                s.res = z;
                break;
            }
            case 'd':
                s.p.reset(new T(env.alloc(z)));
                s.value = -1;
                s.res = z;
                break;
            case 'c':
                s.p.reset(new T(*o.p));
                s.value = o.value;
                s.res = o.res;
                break;
            case 'm':
                s.p.reset(new T(std::move(*o.p)));
                s.value = o.value;
                s.res = o.res;
                o.value = -1;
                break;
            case 'p':
                s.p.reset(new T(zserio::PropagateAllocator, *o.p, env.alloc(z)));
                s.value = o.value;
                s.res = z;
                break;
            case 'q':
                s.p.reset(new T(zserio::allocatorPropagatingCopy(*o.p, env.alloc(z))));
                s.value = o.value;
                s.res = z;
                break;
            case 'a':
            {
                const T& from = *o.p;
                *s.p = from;
                s.value = o.value;
                s.res = o.res;
                break;
            }
            case 'A':
                *s.p = std::move(*o.p);
                s.value = o.value;
                s.res = o.res;
                o.value = -1;
                break;
            case 's':
                std::swap(*s.p, *o.p);
                std::swap(s.value, o.value);
                std::swap(s.res, o.res);
                break;
            case 'v':
            {
                // through a growing vector
                std::vector<T> v;
                v.push_back(*o.p);
                v.push_back(*o.p);
                v.push_back(*o.p);
                v.reserve(8); // objects moved from are not copied
                v.pop_back();
                v.pop_back();
                v.pop_back();
                v.push_back(*o.p);
                v.push_back(*o.p);
                v.emplace_back(std::move(v[0]));
                v.erase(v.begin());
                v.insert(v.begin(), v.back());
                s.p.reset(new T(v[0]));
                s.value = o.value;
                s.res = o.res;
                break;
            }
            case 'R': case 'C': case 'P': case 'B':
            {
                // the same with memory which runs out
                Exact e(data[y % data.size()]);
                zserio::BitStreamReader in(e.p.get(), sizes[y % data.size()], zserio::BitsTag());
                if (k != 'B') s.p.reset();
                env.fail(static_cast<long>(1 + z * z + y));
                try
                {
                    if (k == 'B') { s.value = -1; *s.p = *o.p; }
                    else if (k == 'R') s.p.reset(new T(in, env.alloc(z)));
                    else if (k == 'C') s.p.reset(new T(*o.p));
                    else s.p.reset(new T(zserio::PropagateAllocator, *o.p, env.alloc(z)));
                    s.value = k == 'R' ? static_cast<int>(y % data.size()) : o.value;
                    s.res = k == 'R' || k == 'P' ? z : o.res;
                }
                catch (const std::bad_alloc&)
                {
                    failed++;
                }
                env.fail(0);
                break;
            }
            }
            bool owned[3] = {false, false, false};
            for (size_t i = 0; i < slots.size(); ++i)
            {
                Slot<T>& t = slots[i];
                if (!t.p) continue;
                owned[t.res] = true;
                if (t.value < 0) { owned[0] = owned[1] = owned[2] = true; continue; }
                size_t v = static_cast<size_t>(t.value);
                std::string where = "after step " + std::to_string(steps) + " (" + x + "), slot " + std::to_string(i) + " ";
                seen++;
                if (text(*t.p) != texts[v]) throw Fail(where + "has the value " + text(*t.p).substr(0, 300));
                if (t.p->hashCode() != hashes[v]) throw Fail(where + "has another hash code");
                if (written(*t.p) != bits[v]) throw Fail(where + "writes " + written(*t.p).substr(0, 300));
                for (size_t l = 0; l < i; ++l)
                    if (slots[l].p && slots[l].value >= 0)
                    {
                        bool same = equal[v][static_cast<size_t>(slots[l].value)];
                        if ((*t.p == *slots[l].p) != same) throw Fail(where + "compares wrong with slot " + std::to_string(l));
                    }
            }
            for (size_t i = 0; i < 3; ++i)
                if (!owned[i] && env.live(i) != 0)
                    throw Fail("after step " + std::to_string(steps) + " (" + x + "): " + std::to_string(env.live(i)) +
                               " bytes of allocator " + std::to_string(i) + " are still used");
        }
    }
    size_t allocs = 0;
#ifdef DRV_PMR
    for (auto& r : env.res)
    {
        if (r.live) throw Fail(std::to_string(r.live) + " bytes are never freed");
        allocs += r.allocs;
    }
#endif
    return std::to_string(steps) + "," + std::to_string(seen) + "," + std::to_string(allocs) + "," + std::to_string(failed);
}
} // namespace copies

template <typename T>
std::string cmdHi(const Args& a) { return copies::run<T>(a); }
#endif
