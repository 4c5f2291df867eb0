// Driver of generated services and pubsubs in C++: one command per line, one result line each.
#ifndef RPC_HPP
#define RPC_HPP
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <vector>
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/IService.h"
#include "zserio/ServiceException.h"
#include "zserio/IPubsub.h"
#include "zserio/PubsubException.h"

using std::string;
using Bytes = std::vector<uint8_t>;
inline string hex(const uint8_t* p, size_t n)
{
    static const char* d = "0123456789abcdef";
    string s;
    for (size_t i = 0; i < n; ++i) { s += d[p[i] >> 4]; s += d[p[i] & 15]; }
    return s;
}
inline Bytes unhex(const string& s)
{
    Bytes v;
    for (size_t i = 0; i + 1 < s.size(); i += 2) v.push_back(static_cast<uint8_t>(std::stoi(s.substr(i, 2), nullptr, 16)));
    v.shrink_to_fit();
    return v;
}
template <typename T> string rehex(const T& o)
{
    zserio::BitBuffer b(o.bitSizeOf());
    zserio::BitStreamWriter w(b);
    o.write(w);
    return hex(b.getBuffer(), b.getByteSize());
}
inline string rehex(const Bytes& b) { return hex(b.data(), b.size()); }
inline string rehex(zserio::Span<const uint8_t> b) { return hex(b.data(), b.size()); }
template <typename T> struct Maker
{
    static T make(const string& h)
    {
        Bytes d = unhex(h);
        zserio::BitStreamReader r(d.data(), d.size());
        return T(r);
    }
};
template <> struct Maker<Bytes> { static Bytes make(const string& h) { return unhex(h); } };
inline string ctxs(void* c) { return c ? std::to_string(reinterpret_cast<uintptr_t>(c)) : "None"; }
inline void* ctxp(const string& c) { return c == "-" ? nullptr : reinterpret_cast<void*>(std::stoull(c)); }
struct Boom : std::runtime_error { Boom() : std::runtime_error("boom") {} };
struct Log
{
    std::vector<string> l;
    void add(const string& s) { l.push_back(s); }
    string str() { string r; for (size_t i = 0; i < l.size(); ++i) { if (i) r += " "; r += l[i]; } return r; }
};
inline string sv(zserio::StringView v) { return string(v.data(), v.size()); }
struct Script
{
    string mode, resp, req;
    Log* log;
    template <typename RESP, typename REQ> RESP call(zserio::IService& self, const char* m, const REQ& r, void* ctx)
    {
        log->add(string(m) + "(" + rehex(r) + "," + ctxs(ctx) + ")");
        if (mode == "throw") throw Boom();
        if (mode == "nest")
        {
            mode = "ok";
            Bytes d = unhex(req);
            auto p = self.callMethod(m, d, reinterpret_cast<void*>(77));
            log->add("nested(" + rehex(p->getData()) + ")");
        }
        return Maker<RESP>::make(resp);
    }
};
struct Transport : zserio::IServiceClient
{
    Script& s; zserio::IService* impl;
    Transport(Script& s_, zserio::IService* i) : s(s_), impl(i) {}
    zserio::vector<uint8_t> callMethod(zserio::StringView name, const zserio::IServiceData& d, void* ctx) override
    {
        string a = rehex(d.getData());
        s.log->add(sv(name) + "[" + a + "," + ctxs(ctx) + "]" + (a == rehex(d.getData()) ? "" : "DIFF"));
        if (impl)
        {
            // the request is only valid until the call returns
            Bytes copy = unhex(a);
            auto r = impl->callMethod(name, copy, ctx);
            copy.assign(copy.size(), 0xAA);
            auto x = r->getData();
            return zserio::vector<uint8_t>(x.begin(), x.end());
        }
        if (s.mode == "throw") throw zserio::ServiceException("down");
        return unhex(s.resp);
    }
};
struct Broker : zserio::IPubsub
{
    Log& log; size_t next = 5;
    struct Sub { size_t id; string topic; std::shared_ptr<OnTopicCallback> cb; };
    std::vector<Sub> subs;
    explicit Broker(Log& l) : log(l) {}
    void publish(zserio::StringView topic, zserio::Span<const uint8_t> data, void* ctx) override
    {
        log.add("pub(" + sv(topic) + "," + rehex(data) + "," + ctxs(ctx) + ")");
        deliver(sv(topic), Bytes(data.begin(), data.end()));
    }
    void deliver(const string& topic, Bytes data)
    {
        auto copy = subs;
        for (auto& s : copy)
            if (s.topic == topic)
            {
                try { (*s.cb)(topic, data); }
                catch (const zserio::PubsubException&) { throw; }
                catch (const zserio::CppRuntimeException&) { log.add("err(" + std::to_string(s.id) + ")"); }
            }
    }
    SubscriptionId subscribe(zserio::StringView topic, const std::shared_ptr<OnTopicCallback>& cb, void* ctx) override
    {
        next += 3;
        log.add("sub(" + sv(topic) + "," + ctxs(ctx) + ")=" + std::to_string(next));
        subs.push_back(Sub{next, sv(topic), cb});
        return next;
    }
    void unsubscribe(SubscriptionId id) override
    {
        log.add("uns(" + std::to_string(id) + ")");
        for (auto it = subs.begin(); it != subs.end(); ++it)
            if (it->id == id) { subs.erase(it); return; }
        throw zserio::PubsubException("no subscription");
    }
};
struct PsOps
{
    std::map<string, std::function<void(const string&, void*, bool)>> publish;
    std::map<string, std::function<size_t(std::function<void(const string&, const string&)>, void*, bool)>> subscribe;
    std::function<void(size_t)> unsubscribe;
};
inline std::vector<string> split(const string& s, char c)
{
    std::vector<string> r;
    size_t p = 0;
    for (;;)
    {
        size_t e = s.find(c, p);
        r.push_back(s.substr(p, e == string::npos ? e : e - p));
        if (e == string::npos) return r;
        p = e + 1;
    }
}
inline string runPubsub(PsOps& ps, Broker& b, Log& log, const string& ops)
{
    std::vector<size_t> ids;
    for (auto& op : split(ops, ';'))
    {
        auto w = split(op, ':');
        try
        {
            if (w[0] == "p") ps.publish.at(w[1])(w[2], ctxp(w[3]), w[3] == "-");
            else if (w[0] == "s")
            {
                size_t k = ids.size();
                ids.push_back(0);
                bool once = w[3] == "once";
                ids[k] = ps.subscribe.at(w[1])([&log, &ids, &ps, k, once](const string& t, const string& m) {
                    log.add("cb" + std::to_string(k) + "(" + t + "," + m + ")");
                    if (once) ps.unsubscribe(ids[k]);
                }, ctxp(w[2]), w[2] == "-");
                log.add("id" + std::to_string(k) + "=" + std::to_string(ids[k]));
            }
            else if (w[0] == "u") ps.unsubscribe(ids.at(static_cast<size_t>(std::stoi(w[1]))));
            else if (w[0] == "d") b.deliver(w[1], unhex(w[2]));
        }
        catch (const zserio::PubsubException&) { log.add("PubsubException"); }
    }
    b.subs.clear();
    return log.str();
}
using Args = std::vector<string>;
struct Svc
{
    std::function<std::unique_ptr<zserio::IService>(Script&)> make;
    std::map<string, std::function<string(Transport&, const string& req, void* ctx, bool none)>> call;
    std::function<string()> names;
};
using Svcs = std::map<string, Svc>;
using Pss = std::map<string, std::function<string(const string&)>>;
inline string execute(Svcs& svcs, Pss& pss, const Args& a)
{
    if (a[0] == "N") return svcs.at(a[1]).names();
    if (a[0] == "Q") return pss.at(a[1])(a[2]);
    Log log;
    Script s{a[6], a[5], a[4], &log};
    Svc& v = svcs.at(a[1]);
    try
    {
        if (a[0] == "S")
        {
            auto impl = v.make(s);
            Bytes d = unhex(a[4]);
            auto r = impl->callMethod(a[2], d, ctxp(a[3]));
            d.assign(d.size(), 0xAA);
            Bytes().swap(d);
            impl.reset();
            string x = rehex(r->getData());
            log.add("=" + x + (x == rehex(r->getData()) ? "" : "DIFF"));
        }
        else
        {
            std::unique_ptr<zserio::IService> impl;
            if (a[0] == "L") impl = v.make(s);
            Transport t(s, impl.get());
            log.add("=" + v.call.at(a[2])(t, a[4], ctxp(a[3]), a[3] == "-"));
        }
    }
    catch (const Boom&) { log.add("Boom"); }
    catch (const zserio::ServiceException&) { log.add("ServiceException"); }
    catch (const zserio::CppRuntimeException&) { log.add("error"); }
    return log.str();
}
inline int loop(Svcs& svcs, Pss& pss)
{
    string line;
    while (std::getline(std::cin, line))
    {
        string r;
        try { r = "OK|" + execute(svcs, pss, split(line, '\t')); }
        catch (const std::exception& e) { r = string("ERR|") + typeid(e).name() + "|" + e.what(); }
        for (auto& c : r) if (c == '\n') c = ' ';
        std::cout << r << std::endl;
    }
    return 0;
}
#endif
