// Driver for generated C++ SQL databases: one session (command) per line.
#ifndef SQL_HPP
#define SQL_HPP
#include <functional>
#include <sqlite3.h>
#include <typeinfo>
#include "drv.hpp"
#include "zserio/IValidationObserver.h"
#include "zserio/SqliteException.h"

using Strs = std::vector<zserio::string<>>;

inline std::string replaceAll(std::string s, const std::string& a, const std::string& b)
{
    for (size_t p = 0; (p = s.find(a, p)) != std::string::npos; p += b.size()) s.replace(p, a.size(), b);
    return s;
}

struct Session
{
    std::string file, op, out;
    bool external = false;
    std::vector<std::pair<std::string, std::string>> relocs;
    std::map<std::string, std::string> params;
    std::vector<std::vector<std::string>> ops;
    std::vector<std::string> a;
    size_t at = 0;
    bool next()
    {
        if (at >= ops.size()) return false;
        a = ops[at++];
        op = a[0];
        return true;
    }
    template <typename T> void param(const std::string& n, T& v) { Tok t(params.at(n)); parse(t, v); }
    template <typename F> void guard(F f)
    {
        if (!out.empty()) out += " # ";
        try { out += f(); }
        catch (const zserio::SqliteException& e) { std::string m = e.what(); for (auto& c : m) if (c == '#') c = ' '; out += "!sql" + m; }
        catch (const zserio::CppRuntimeException&) { out += "!runtime"; }
    }
    template <typename M> M attached(const M& m) const
    {
        M r;
        std::map<std::string, std::string> files;
        for (auto& x : relocs) r[x.first] = typename M::mapped_type(files.emplace(x.second, "att_" + x.first).first->second.c_str());
        (void)m;
        return r;
    }
};

struct External
{
    sqlite3* db = nullptr;
    explicit External(const std::string& f)
    {
        if (sqlite3_open(f.c_str(), &db) != SQLITE_OK) throw std::runtime_error("open");
    }
    void attach(const std::vector<std::pair<std::string, std::string>>& m)
    {
        std::map<std::string, std::string> files;
        for (auto& x : m)
            if (files.emplace(x.second, x.first).second && sqlite3_exec(db, ("ATTACH DATABASE '" + x.second + "' AS att_" + x.first).c_str(), nullptr, nullptr, nullptr) != SQLITE_OK)
                throw std::runtime_error("attach");
    }
    ~External()
    {
        if (sqlite3_close(db) != SQLITE_OK) { fprintf(stderr, "an external connection was left with open statements\n"); abort(); }
    }
};

struct NoProv {};

struct Observer : zserio::IValidationObserver
{
    std::string mode, log;
    int depth = 0;
    explicit Observer(const std::string& m) : mode(m) {}
    static std::string s(zserio::StringView v) { return std::string(v.begin(), v.end()); }
    void beginDatabase(size_t n) override { log += "db" + std::to_string(n) + " "; }
    void endDatabase(size_t n) override { log += "end" + std::to_string(n); }
    bool beginTable(zserio::StringView t, size_t n) override
    {
        log += s(t) + ":" + std::to_string(n) + "[ ";
        return mode != "skip";
    }
    bool endTable(zserio::StringView t, size_t n) override
    {
        log += "]" + s(t) + ":" + std::to_string(n) + " ";
        return mode != "one";
    }
    bool reportError(zserio::StringView t, zserio::StringView f, zserio::Span<const zserio::StringView> keys, ErrorType e, zserio::StringView) override
    {
        static const char* n[] = {"INVALID_COLUMN_TYPE", "INVALID_COLUMN_CONSTRAINT", "COLUMN_MISSING", "COLUMN_SUPERFLUOUS", "VALUE_OUT_OF_RANGE",
                "INVALID_VALUE", "BLOB_PARSE_FAILED", "BLOB_COMPARE_FAILED"};
        log += s(t) + "." + s(f) + "=" + n[e] + "(";
        for (auto k : keys) { for (unsigned char c : s(k)) { char b[3]; snprintf(b, 3, "%02x", c); log += b; } log += ","; }
        log += ") ";
        return mode != "stop";
    }
    std::string text() { return log; }
};

template <typename Tr, typename Table, typename P>
std::string tableOp(Session& s, Table& t, P& p)
{
    const std::vector<std::string>& a = s.a;
    if (s.op == "create") { t.createTable(); return "ok"; }
    if (s.op == "createrowid") { Tr::rowid(t); return "ok"; }
    if (s.op == "drop") { t.deleteTable(); return "ok"; }
    bool all = a[2] == "*";
    Strs cols;
    if (!all) for (auto& c : split(a[2], ',')) cols.push_back(zserio::string<>(c.c_str()));
    std::vector<bool> used(Tr::columns(), all);
    for (auto& c : cols) for (size_t i = 0; i < Tr::columns(); ++i) if (c == Tr::name(i)) used[i] = true;
    if (s.op == "write" || s.op == "update")
    {
        std::vector<typename Tr::Row> rows;
        if (!a[3].empty())
            for (auto& r : split(a[3], ';'))
            {
                typename Tr::Row row;
                auto cells = split(r, ',');
                for (size_t i = 0; i < Tr::columns(); ++i)
                {
                    Tok tok(cells.at(i));
                    Tr::set(row, i, tok);
                }
                // rows are values: they may be copied and moved
                typename Tr::Row copy(row), other;
                other = copy;
                rows.push_back(std::move(other));
            }
        if (s.op == "write") Tr::write(t, p, rows, cols, all);
        else Tr::update(t, p, rows.at(0), cols, all, a[4]);
        return "ok";
    }
    if (s.op == "read")
    {
        auto rd = Tr::read(t, p, cols, all, a[3]);
        std::string r = "[";
        while (rd.hasNext())
        {
            auto row = rd.next();
            if (r.size() > 1) r += ";";
            for (size_t i = 0; i < Tr::columns(); ++i)
            {
                if (i) r += ",";
                std::string x;
                Tr::get(row, i, x);
                while (!x.empty() && x.back() == ' ') x.pop_back();
                if (!used[i] && x != "n") x = "SET" + x;
                r += x;
            }
        }
        try { rd.next(); return "read past the end"; } catch (const zserio::CppRuntimeException&) {}
        return r + "]";
    }
    throw std::logic_error("op " + s.op);
}

inline int loop(std::map<std::string, std::function<std::string(Session&)>>& dbs)
{
    std::string line;
    while (std::getline(std::cin, line))
    {
        std::string r;
        try
        {
            auto a = split(replaceAll(line, "@L", "cpp"), '\t');
            Session s;
            s.file = a[1];
            if (a[2] != "-") for (auto& x : split(a[2], ',')) { auto kv = split(x, '='); s.relocs.push_back({kv[0], kv[1]}); }
            s.external = a[3] == "1";
            if (a[4] != "-") for (auto& x : split(a[4], ';')) { auto kv = split(x, '='); s.params[kv[0]] = kv[1]; }
            for (size_t i = 5; i < a.size(); ++i) s.ops.push_back(split(a[i], '|'));
            r = "OK|" + dbs.at(a[0])(s);
        }
        catch (const std::exception& e) { r = std::string("ERR|") + typeid(e).name() + "|" + e.what(); }
        for (auto& c : r) if (c == '\n') c = ' ';
        std::cout << r << std::endl;
    }
    return 0;
}
#endif
