// end-to-end histories on a local file-system database against a model: archive, flush, list, retrieve, inspect, wipe, purge, control, stats
#include "vh.h"
#include <filesystem>
#include <fstream>
#include <map>
#include <memory>
#include "eckit/config/YAMLConfiguration.h"
#include "eckit/io/DataHandle.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/runtime/Main.h"
#include "metkit/mars/MarsRequest.h"
#include "fdb5/LibFdb5.h"
#include "fdb5/api/FDB.h"
#include "fdb5/api/helpers/FDBToolRequest.h"
#include "fdb5/database/Key.h"
using namespace fdb5;
namespace fs = std::filesystem;
using Strs = std::vector<std::string>;
using F = std::map<std::string, std::string>;   // a field: keyword -> value, empty optionals left out
using Req = std::map<std::string, Strs>;
static const Strs ORDER = {"class", "expver", "date", "type", "levtype", "step", "param", "levelist"};
static const char* SCHEMA = "[class, expver, date\n  [type, levtype?\n    [step, param, levelist?]]]\n";
static std::string show(const F& f) { std::string s; for (auto& k : ORDER) if (f.count(k)) s += k + "=" + f.at(k) + ","; return s; }
static std::string show(const Req& r) { std::string s; for (auto& p : r) { s += p.first + "="; for (auto& v : p.second) s += v + "/"; s += " "; } return s; }
static F fromKey(const Key& k) { F f; for (auto& [a, b] : k) if (!b.empty()) f[a] = b; return f; }
static std::string pick(const Strs& v) { return v[vh::rnd(v.size())]; }
static const std::map<std::string, Strs> DOM = {{"class", {"od"}}, {"expver", {"0001", "0002"}}, {"date", {"20200101", "20200102"}}, {"type", {"an", "fc"}}, {"levtype", {"pl", "pl1"}}, {"step", {"0", "1", "10"}}, {"param", {"130", "t"}}, {"levelist", {"500", "850"}}};
static bool optional(const std::string& k) { return k == "levtype" || k == "levelist"; }
static bool few;   // mostly one database
static F field() { F f; for (auto& k : ORDER) if (!optional(k) || vh::rnd(3)) f[k] = few && (k == "expver" || k == "date") ? DOM.at(k)[0] : pick(DOM.at(k)); return f; }
static Strs subset(const Strs& v) { Strs r; for (auto& x : v) if (vh::rnd(2)) r.push_back(x); if (r.empty()) r.push_back(pick(v)); if (vh::rnd(2)) std::reverse(r.begin(), r.end()); return r; }
static bool in(const Strs& v, const std::string& x) { return std::find(v.begin(), v.end(), x) != v.end(); }
static metkit::mars::MarsRequest mars(const Req& q, const char* verb) { metkit::mars::MarsRequest r(verb); for (auto& k : ORDER) if (q.count(k)) r.values(k, q.at(k)); return r; }
static Key tokey(const F& f) { Key k; for (auto& w : ORDER) if (f.count(w)) k.set(w, f.at(w)); return k; }
static Key tokeyShuffled(const F& f) { Strs o = ORDER; std::shuffle(o.begin(), o.end(), vh::rng); Key k; for (auto& w : o) if (f.count(w)) k.set(w, f.at(w)); return k; }
static std::string slurp(eckit::DataHandle* h) {
    std::unique_ptr<eckit::DataHandle> dh(h);
    std::string s;
    dh->openForRead();
    char b[777];
    for (long n; (n = dh->read(b, sizeof b)) > 0;) s.append(b, n);
    dh->close();
    return s;
}
static const std::vector<ControlIdentifier> ALL = {ControlIdentifier::List, ControlIdentifier::Retrieve, ControlIdentifier::Archive, ControlIdentifier::Wipe};
static long serial = 0;
static std::string payload() { std::string s = "<" + std::to_string(++serial) + ":"; size_t n = vh::rnd(10) ? vh::rnd(60) : 3000 + vh::rnd(3000); for (size_t i = 0; i < n; ++i) s += char('a' + vh::rnd(26)); return s + ">"; }
static std::vector<std::string> split(const std::string& s) { std::vector<std::string> r; for (size_t i = 0; i < s.size();) { size_t j = s.find('>', i); if (j == std::string::npos) { r.push_back("BROKEN " + s.substr(i)); break; } r.push_back(s.substr(i, j + 1 - i)); i = j + 1; } return r; }
static std::multiset<std::string> mset(std::vector<std::string> v) { return {v.begin(), v.end()}; }

struct World {
    std::string root, opts;
    std::string yaml;
    std::unique_ptr<FDB> h[2];
    std::vector<std::pair<F, std::string>> pending[2];
    std::map<F, std::string> latest;
    std::map<F, std::set<std::string>> ever;   // every version not yet wiped
    std::string log;
    World(int n) {
        root = vh::dir + "/w" + std::to_string(n);
        fs::create_directories(root + "/r1");
        fs::create_directories(root + "/r2");
        std::ofstream(root + "/schema") << SCHEMA;
        yaml = "---\ntype: local\nengine: toc\nschema: " + root + "/schema\nspaces:\n- handler: Default\n  roots:\n  - path: " + root + "/r1\n";
        sub = getenv("SUB") ? atoi(getenv("SUB")) : vh::rnd(3) == 0;
    }
    bool sub;
    ~World() { h[0].reset(); h[1].reset(); fs::remove_all(root); }
    Config config() {
        eckit::YAMLConfiguration y(yaml);
        eckit::LocalConfiguration u;
        u.set("useSubToc", sub);
        return Config(y, u);
    }
    // with sub-TOCs only one writer at a time: see subtocs()
    FDB& handle(int i) { if (sub && h[1 - i]) close(1 - i); if (!h[i]) h[i] = std::make_unique<FDB>(config()); return *h[i]; }
    void say(const std::string& s) { log += s + "; "; vh::kase("%s", log.size() > 3500 ? ("..." + log.substr(log.size() - 3500)).c_str() : log.c_str()); }
    void archive(int i) {
        F f = latest.size() && vh::rnd(2) ? std::next(latest.begin(), vh::rnd(latest.size()))->first : field();
        std::string d = payload();
        say("archive" + std::to_string(i) + " " + show(f) + d.substr(0, d.find(':')));
        handle(i).archive(tokeyShuffled(f), d.data(), d.size());
        pending[i].emplace_back(f, d);
    }
    void flush(int i) {
        say("flush" + std::to_string(i));
        handle(i).flush();
        for (auto& p : pending[i]) { latest[p.first] = p.second; ever[p.first].insert(p.second); }
        pending[i].clear();
        CHECK("flush-dirty", !handle(i).dirty());
    }
    void close(int i) { flush(i); say("close" + std::to_string(i)); h[i].reset(); }
    bool listed(const Req& q, const F& f) { for (auto& p : q) if (f.count(p.first) && !in(p.second, f.at(p.first))) return false; return true; }
    // an optional keyword that is requested also finds the fields without it, when the index holds none of the requested values
    bool levels(const Req& q, const F& f) { for (auto& p : latest) { bool same = true; for (auto k : {"class", "expver", "date", "type", "levtype"}) same &= p.first.count(k) == f.count(k) && (!f.count(k) || p.first.at(k) == f.at(k)); if (same && p.first.count("levelist") && in(q.at("levelist"), p.first.at("levelist"))) return true; } return false; }
    bool wanted(const Req& q, const F& f) { for (auto& k : ORDER) if (q.count(k) && k == "levelist" && !f.count(k)) { if (levels(q, f)) return false; } else if (q.count(k) ? !f.count(k) || !in(q.at(k), f.at(k)) : f.count(k) && optional(k)) return false; return true; }
    std::map<F, std::vector<ListElement>> entries(const Req& q, bool dedup, const char* id) {
        FDB r(config());
        std::map<F, std::vector<ListElement>> got;
        auto it = r.list(FDBToolRequest(mars(q, "list"), q.empty()), dedup);
        ListElement e;
        while (it.next(e)) {
            F f = fromKey(e.combinedKey());
            CHECK(id, e.hasLocation() && e.keys().size() == 3, << show(f));
            got[f].push_back(e);
        }
        return got;
    }
    // the listing of a request shows exactly the latest of each field; without deduplication also older versions, none invented
    void list(const Req& q, const char* id) {
        say("list " + show(q));
        auto got = entries(q, true, id);
        for (auto& [f, es] : got) {
            CHECK(id, es.size() == 1, << show(f) << " listed " << es.size() << " times");
            auto it = latest.find(f);
            CHECK(id, it != latest.end(), << show(f) << " is listed but was never archived or was wiped");
            if (it == latest.end()) continue;
            CHECK(id, listed(q, f), << show(f) << " is not in the request");
            std::string d;
            bool th = vh::throws([&] { d = slurp(es[0].location().dataHandle()); });
            CHECK(id, !th && d == it->second, << show(f) << " gives " << d.substr(0, 20) << " instead of " << it->second.substr(0, 20));
            CHECK(id, size_t((long long)es[0].length()) == it->second.size(), << show(f));
        }
        for (auto& [f, d] : latest) if (listed(q, f)) CHECK(id, got.count(f), << show(f) << " is missing in the list");
        auto full = entries(q, false, id);
        for (auto& [f, es] : full) {
            CHECK(id, ever.count(f), << show(f));
            bool has = false;
            std::set<std::string> seen;
            for (auto& e : es) {
                std::string d;
                bool th = vh::throws([&] { d = slurp(e.location().dataHandle()); });
                CHECK(id, !th && ever[f].count(d), << show(f) << " full listing gives " << d.substr(0, 20));
                CHECK(id, seen.insert(d).second, << show(f) << " the same version is listed twice");
                has |= latest.count(f) && d == latest[f];
            }
            CHECK(id, has, << show(f) << " the latest version is not in the full listing");
            if (latest.count(f)) { std::string d; vh::throws([&] { d = slurp(es[0].location().dataHandle()); }); CHECK(id, d == latest[f], << show(f) << " the latest version is not listed first"); }
        }
        CHECK(id, full.size() == got.size());
    }
    void retrieve(const Req& q, const char* id) {
        say("retrieve " + show(q));
        FDB r(config());
        std::multiset<std::string> want;
        for (auto& [f, d] : latest) if (wanted(q, f)) want.insert(d);
        std::string s;
        std::string what;
        bool th = vh::throws([&] { s = slurp(r.retrieve(mars(q, "retrieve"))); }, &what);
        CHECK(id, !th, << what);
        if (th) return;
        auto got = split(s);
        CHECK(id, mset(got) == want, << got.size() << " fields instead of " << want.size() << " or others");
        std::map<F, int> n;
        FDB r2(config());
        auto it = r2.inspect(mars(q, "retrieve"));
        ListElement e;
        while (it.next(e)) ++n[fromKey(e.combinedKey())];
        for (auto& [f, c] : n) CHECK(id, c == 1 && latest.count(f) && wanted(q, f), << "inspect " << show(f));
        CHECK(id, n.size() == want.size(), << "inspect finds " << n.size());
    }
    Req full() { Req q; for (auto& k : ORDER) if (!optional(k) || vh::rnd(2)) q[k] = subset(DOM.at(k)); return q; }
    Req part(const Strs& kws) { Req q; for (auto& k : kws) if (vh::rnd(2)) q[k] = subset(DOM.at(k)); return q; }
    void checkAll(const char* id) { list({}, id); Req q; for (auto& k : ORDER) if (!optional(k)) q[k] = DOM.at(k); retrieve(q, id); q["levtype"] = DOM.at("levtype"); retrieve(q, id); q["levelist"] = DOM.at("levelist"); retrieve(q, id); q.erase("levtype"); retrieve(q, id); }
    std::map<std::string, std::string> files() {
        std::map<std::string, std::string> m;
        for (auto& e : fs::recursive_directory_iterator(root)) if (e.is_regular_file()) { std::ifstream i(e.path(), std::ios::binary); m[e.path().string()] = std::string(std::istreambuf_iterator<char>(i), {}); }
        return m;
    }
    void control(const Req& q, ControlAction a, const ControlIdentifiers& ids) { FDB r(config()); auto it = r.control(FDBToolRequest(mars(q, "control")), a, ids); ControlElement e; while (it.next(e)) {} }
    std::map<std::string, std::string> status() {
        std::map<std::string, std::string> m;
        FDB r(config());
        auto it = r.status(FDBToolRequest(mars(Req{{"class", {"od"}}}, "status")));
        StatusElement e;
        while (it.next(e)) { std::string s; for (int i = 0; i < 4; ++i) if (!e.controlIdentifiers.enabled(ALL[i])) s += "LRAW"[i]; m[show(fromKey(e.key))] = s; }
        return m;
    }
    void settle() { for (int i : {0, 1}) { if (h[i]) close(i); } }
};

static void archiving(World& w) {
    const char* id = vh::prop.c_str();
    few = vh::rnd(2);
    int one = vh::rnd(2);   // one writer or two
    for (size_t n = 6 + vh::rnd(20); n-- > 0;) {
        switch (vh::rnd(12)) {
            case 0: case 1: case 2: case 3: case 4: case 5: w.archive(one ? 0 : vh::rnd(2)); break;
            case 6: case 7: { int i = one ? 0 : vh::rnd(2); if (w.h[i]) { w.flush(i); if (vh::rnd(2)) w.checkAll(id); } break; }
            case 8: w.close(vh::rnd(2)); if (vh::rnd(3) == 0) w.checkAll(id); break;
            case 9: w.list(w.part({"expver", "date", "type", "step", "param"}), id); break;
            default: w.retrieve(w.full(), id);
        }
    }
    for (int i : {0, 1}) if (w.h[i]) w.flush(i);
    w.checkAll(id);
    w.settle();
    w.checkAll(id);
}
static void fill(World& w, size_t n) {
    for (; n-- > 0;) { w.archive(vh::rnd(2)); if (vh::rnd(4) == 0) w.flush(vh::rnd(2)); if (vh::rnd(8) == 0) w.close(vh::rnd(2)); }
    w.settle();
}
static bool covers(const Req& q, const F& f) { for (auto& p : q) if (f.count(p.first) && !in(p.second, f.at(p.first))) return false; return true; }
static void wiping(World& w) {
    const char* id = vh::prop.c_str();
    fill(w, 6 + vh::rnd(14));
    for (size_t n = 1 + vh::rnd(3); n-- > 0;) {
        Req q{{"class", {"od"}}};
        for (auto k : {"expver", "date"}) if (vh::rnd(3)) q[k] = subset(DOM.at(k));
        if (vh::rnd(2)) q["type"] = subset(DOM.at("type"));
        if (vh::rnd(3) == 0 && q.count("type")) q["type"] = {pick(DOM.at("type"))};
        if (vh::rnd(6) == 0) q["step"] = subset(DOM.at("step"));
        bool over = q.count("step");   // names more than an index: nothing is to be removed
        if (vh::rnd(3) == 0) {
            Req some{{"class", {"od"}}};
            for (auto k : {"expver", "date"}) if (vh::rnd(2)) some[k] = {pick(DOM.at(k))};
            ControlIdentifiers ids = ALL[vh::rnd(3)];
            if (vh::rnd(2)) ids |= ALL[vh::rnd(3)];
            w.say("disable some of " + show(some));
            w.control(some, ControlAction::Disable, ids);
        }
        auto locks = w.status();
        w.say("wipe dry " + show(q));
        auto before = w.files();
        { FDB r(w.config()); auto it = r.wipe(FDBToolRequest(mars(q, "wipe")), false); WipeElement e; while (it.next(e)) {} }
        CHECK(id, w.files() == before, << "a dry run changed files");
        bool stray = vh::rnd(4) == 0;
        std::string sp;
        static const Strs NAMES = {"stray", "zz.data", "AA.data", "other.index", "toc.old"};
        if (stray) {
            for (auto& e : fs::directory_iterator(w.root + "/r1")) if (e.is_directory()) { sp = e.path().string() + "/" + pick(NAMES); break; }
            if (sp.empty()) stray = false; else std::ofstream(sp) << "not of the database";
        }
        w.say(std::string("wipe ") + show(q) + (stray ? "with a stray file in " + sp.substr(w.root.size()) : ""));
        before = w.files();
        std::string what;
        bool unsafe = vh::rnd(6) == 0;
        if (unsafe) w.say("unsafeWipeAll");
        bool th = vh::throws([&] { FDB r(w.config()); auto it = r.wipe(FDBToolRequest(mars(q, "wipe")), true, false, unsafe); WipeElement e; while (it.next(e)) {} }, &what);
        for (auto& [d, l] : w.status()) CHECK(id, locks.count(d) && locks[d] == l, << d << " what is disabled changed from " << locks[d] << " to " << l);
        w.control(Req{{"class", {"od"}}}, ControlAction::Enable, ALL[0] | ALL[1] | ALL[2]);
        if (th) {
            CHECK(id, stray && !unsafe, << what);
            CHECK(id, fs::exists(sp) , << "the stray file was removed by a wipe that was refused");
            fs::remove(sp);
            // databases handled before the refused one may have been wiped: learn which, all or nothing per request part
            for (auto i = w.latest.begin(); i != w.latest.end();) {
                Req one{{"class", {"od"}}, {"expver", {i->first.at("expver")}}, {"date", {i->first.at("date")}}};
                F f = i->first;
                if (covers(q, f) && !over && w.entries(one, true, id).count(f) == 0) { CHECK(id, sp.find(f.at("expver") + ":" + f.at("date")) == std::string::npos, << show(f) << " was wiped although the wipe was refused"); w.ever.erase(f); i = w.latest.erase(i); }
                else ++i;
            }
        }
        else {
            if (!over) for (auto i = w.latest.begin(); i != w.latest.end();) if (covers(q, i->first)) { w.ever.erase(i->first); i = w.latest.erase(i); } else ++i;
            std::set<std::string> left;
            for (auto& p : w.latest) left.insert("od:" + p.first.at("expver") + ":" + p.first.at("date"));
            for (auto& e : fs::directory_iterator(w.root + "/r1")) if (e.is_directory()) CHECK(id, left.count(e.path().filename().string()), << e.path().filename() << " is left although nothing in it is");
            if (stray && left.count(fs::path(sp).parent_path().filename().string())) { CHECK(id, fs::exists(sp), << "the stray file was removed from a database that is still there"); fs::remove(sp); }
            else if (stray) CHECK(id, unsafe, << "the stray file was removed without unsafeWipeAll");
        }
        w.checkAll(id);
        if (vh::rnd(2)) { fill(w, 1 + vh::rnd(5)); w.checkAll(id); }
    }
}
static void purging(World& w) {
    const char* id = vh::prop.c_str();
    fill(w, 8 + vh::rnd(16));
    for (size_t n = 1 + vh::rnd(2); n-- > 0;) {
        Req q{{"class", {"od"}}};
        for (auto k : {"expver", "date"}) if (vh::rnd(2)) q[k] = subset(DOM.at(k));
        w.say("purge dry " + show(q));
        auto before = w.files();
        { FDB r(w.config()); auto it = r.purge(FDBToolRequest(mars(q, "purge")), false); PurgeElement e; while (it.next(e)) {} }
        CHECK(id, w.files() == before, << "a dry run changed files");
        w.say("purge " + show(q));
        { FDB r(w.config()); auto it = r.purge(FDBToolRequest(mars(q, "purge")), true); PurgeElement e; while (it.next(e)) {} }
        w.checkAll(id);
        // nothing is left of an index or data file all of whose fields are superseded
        if (vh::rnd(2)) { fill(w, 1 + vh::rnd(6)); w.checkAll(id); }
    }
}
static void stats(World& w) {
    const char* id = vh::prop.c_str();
    fill(w, 6 + vh::rnd(14));
    Req q{{"class", {"od"}}};
    for (auto k : {"expver", "date"}) if (vh::rnd(2)) q[k] = subset(DOM.at(k));
    w.say("stats " + show(q));
    auto full = w.entries(q, false, id);
    size_t n = 0, bytes = 0;
    for (auto& [f, es] : full) { n += es.size(); for (auto& e : es) bytes += (long long)e.length(); }
    size_t gn = 0, gb = 0, gd = 0, gdb = 0;
    { FDB r(w.config()); auto it = r.stats(FDBToolRequest(mars(q, "stats"))); StatsElement e; IndexStats t; while (it.next(e)) { gn += e.indexStatistics.fieldsCount(); gb += e.indexStatistics.fieldsSize(); gd += e.indexStatistics.duplicatesCount(); gdb += e.indexStatistics.duplicatesSize(); } }
    size_t u = 0, ub = 0;
    for (auto& [f, es] : full) { ++u; ub += (long long)es[0].length(); }
    CHECK(id, gn == n, << "fields " << gn << " listed " << n);
    CHECK(id, gb == bytes, << "bytes " << gb << " listed " << bytes);
    CHECK(id, gd == n - u, << "duplicates " << gd << " listed " << n - u);
    CHECK(id, gdb == bytes - ub, << "duplicate bytes " << gdb << " listed " << bytes - ub);
}
// iteration over the identifiers: every word of 16 bits (stands for the contract of ControlIdentifierIterator::nextValue)
static void identifiers() {
    for (unsigned w = 0; w < 65536; ++w) {
        ControlIdentifiers ids(static_cast<ControlIdentifier>(w));
        unsigned acc = 0, last = 0;
        for (ControlIdentifier i : ids) {
            unsigned b = static_cast<uint16_t>(i);
            const bool next = b && !(b & (b - 1)) && (w & b) && b > last;
            CHECK("identifiers", next, << "the identifiers " << w << " gave " << b << " after " << last);
            if (!next) return;
            acc |= b;
            last = b;
        }
        CHECK("identifiers", acc == w, << "the identifiers " << w << " gave only " << acc);
        if (acc != w) return;
    }
}

static void control(World& w) {
    const char* id = vh::prop.c_str();
    static bool once = (identifiers(), true);
    (void)once;
    fill(w, 4 + vh::rnd(8));
    const auto& IDS = ALL;
    std::map<std::string, std::set<int>> off;   // database -> disabled
    auto db = [](const F& f) { return f.at("expver") + ":" + f.at("date"); };
    std::set<std::string> dbs;
    for (auto& p : w.latest) dbs.insert(db(p.first));
    for (size_t n = 1 + vh::rnd(4); n-- > 0;) {
        Req q{{"class", {"od"}}};
        for (auto k : {"expver", "date"}) if (vh::rnd(3)) q[k] = subset(DOM.at(k));
        bool over = vh::rnd(6) == 0;   // names more than a database: controls nothing
        if (over) q[vh::rnd(2) ? "type" : "step"] = {vh::rnd(2) ? "fc" : "1"};
        bool disable = vh::rnd(3) > 0;
        ControlIdentifiers ids;
        std::set<int> which;
        for (int i = 0; i < 4; ++i) if (vh::rnd(2)) { ids |= IDS[i]; which.insert(i); }
        std::string ws;
        for (int i : which) ws += "LRAW"[i];
        w.say(std::string(disable ? "disable " : "enable ") + ws + " " + show(q));
        size_t count = 0;
        { FDB r(w.config()); auto it = r.control(FDBToolRequest(mars(q, "control")), disable ? ControlAction::Disable : ControlAction::Enable, ids); ControlElement e; while (it.next(e)) { ++count; F f = fromKey(e.key); CHECK(id, !over && covers(q, f) && dbs.count(db(f)), << "control of " << show(f)); if (!covers(q, f)) continue; for (int i : which) if (disable) off[db(f)].insert(i); else off[db(f)].erase(i); for (int i = 0; i < 4; ++i) CHECK(id, e.controlIdentifiers.enabled(IDS[i]) == !off[db(f)].count(i), << show(f) << " reports identifier " << "LRAW"[i]); } }
        size_t want = 0;
        for (auto& d : dbs) { F f{{"class", "od"}, {"expver", d.substr(0, 4)}, {"date", d.substr(5)}}; want += !over && covers(q, f); }
        CHECK(id, count == want, << "controlled " << count << " databases of " << want);
        // status agrees
        { FDB r(w.config()); auto it = r.status(FDBToolRequest(mars(Req{{"class", {"od"}}}, "status"))); StatusElement e; size_t c = 0; while (it.next(e)) { ++c; F f = fromKey(e.key); for (int i = 0; i < 4; ++i) CHECK(id, e.controlIdentifiers.enabled(IDS[i]) == !off[db(f)].count(i), << show(f) << " status of " << "LRAW"[i]); } CHECK(id, c == dbs.size()); }
        // listing shows exactly the databases that may be listed
        auto l = w.entries({}, true, id);
        for (auto& p : w.latest) CHECK(id, l.count(p.first) == !off[db(p.first)].count(0), << show(p.first) << " listed");
        // so do listings that stop at databases or at indexes
        for (int level : {1, 2}) {
            const char* lid = level == 1 ? "list-level-1" : id;
            std::map<std::string, size_t> seen;
            { FDB r(w.config()); auto it = r.list(FDBToolRequest(mars(Req{{"class", {"od"}}}, "list"), false, {}), false, level); ListElement e; while (it.next(e)) { F f = fromKey(e.keys()[0]); ++seen[db(f)]; } }
            for (auto& d : dbs) CHECK(lid, (seen[d] > 0) == !off[d].count(0), << "level " << level << " listing of " << d << (off[d].count(0) ? " (disabled)" : ""));
            if (level == 1) for (auto& [d, c] : seen) CHECK(id, c <= 1, << d << " listed " << c << " times at level 1");
        }
        // retrieval finds exactly the databases that may be retrieved from
        for (auto& p : w.latest) {
            Req one;
            for (auto& kv : p.first) one[kv.first] = {kv.second};
            std::string s;
            vh::throws([&] { FDB r(w.config()); s = slurp(r.retrieve(mars(one, "retrieve"))); });
            CHECK(id, s == (off[db(p.first)].count(1) ? std::string() : p.second), << show(p.first) << " retrieved " << s.size());
            if (vh::rnd(3) == 0) {
                std::string d = payload();
                bool th = vh::throws([&] { FDB r(w.config()); r.archive(tokey(p.first), d.data(), d.size()); r.flush(); });
                CHECK(id, th == (off[db(p.first)].count(2) > 0), << show(p.first) << " archive");
                if (!th) { p.second = d; w.ever[p.first].insert(d); }
            }
        }
        if (vh::rnd(2) == 0) {
            std::string d = *std::next(dbs.begin(), vh::rnd(dbs.size()));
            if (off[d].count(3)) {
                auto before = w.files();
                w.say("wipe of " + d);
                vh::throws([&] { FDB r(w.config()); auto it = r.wipe(FDBToolRequest(mars(Req{{"class", {"od"}}, {"expver", {d.substr(0, 4)}}, {"date", {d.substr(5)}}}, "wipe")), true); WipeElement e; while (it.next(e)) {} });
                CHECK(id, w.files() == before, << "a wipe that is disabled changed files");
            }
            else {
                // nothing is selected: what is disabled stays so
                w.say("wipe of nothing in " + d);
                vh::throws([&] { FDB r(w.config()); auto it = r.wipe(FDBToolRequest(mars(Req{{"class", {"od"}}, {"expver", {d.substr(0, 4)}}, {"date", {d.substr(5)}}, {"type", {"zz"}}}, "wipe")), true); WipeElement e; while (it.next(e)) {} });
                for (auto& [k, l] : w.status()) { std::string x; for (int i : off[k.substr(k.find("expver=") + 7, 4) + ":" + k.substr(k.find("date=") + 5, 8)]) x += "LRAW"[i]; CHECK(id, l == x, << k << " after a wipe of nothing " << l << " is disabled instead of " << x); }
            }
        }
    }
}
static void subtocs(World& w) {
    w.sub = true;
    F f{{"class", "od"}, {"expver", "0001"}, {"date", "20200101"}, {"type", "an"}, {"step", "0"}, {"param", "130"}};
    auto put = [&](FDB& h, const std::string& d) { h.archive(tokey(f), d.data(), d.size()); h.flush(); };
    std::string got;
    FDB a(w.config()), b(w.config());
    put(a, "<first>");
    put(b, "<second>");
    put(a, "<third>");
    vh::kase("two writers with sub-TOCs archive and flush the same field in turn: first, second, first again");
    for (auto& e : w.entries({}, true, "e2e")) got = slurp(e.second[0].location().dataHandle());
    CHECK("subtoc-concurrent-writers", got == "<third>", << got);
}
int main(int argc, char** argv) {
    setenv("FDB_HOME", getenv("VH_DIR") ? getenv("VH_DIR") : "/tmp", 1);
    eckit::Main::initialise(1, argv);
    return vh::run(argc, argv, [] {
        auto f = vh::prop == "C10" ? wiping : vh::prop == "C11" ? purging : vh::prop == "C14" ? stats : vh::prop == "C09" ? control : archiving;
        int runs = vh::thorough ? 600 : 60;
        if (getenv("RUNS")) runs = atoi(getenv("RUNS"));
        for (int i = 0; i < runs; ++i) { World w(i); f(w); }
        if (vh::prop == "C12") { World w(-1); subtocs(w); }
    });
}
