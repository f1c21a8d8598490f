// choice of roots and database directories: random file spaces, roots and database name tables against a reference
#include "vh.h"
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <map>
#include "eckit/config/LocalConfiguration.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/runtime/Main.h"
#include "eckit/utils/Regex.h"
#include "eckit/utils/StringTools.h"
#include "fdb5/config/Config.h"
#include "fdb5/database/Key.h"
#include "fdb5/toc/RootManager.h"
using namespace fdb5;
namespace fs = std::filesystem;

static const char* KW[] = {"class", "expver", "stream", "date"};
static const char* VAL[] = {"od", "rd", "e1", "0001", "oper", "a.b", ""};
static const char* HANDLER[] = {"Default", "First", "Random", "PureRandom", "RoundRobin", "LeastUsed", "LeastUsedPercent", "WeightedRandom", "WeightedRandomPercent"};
static const char* RE[] = {".*", "^od:.*", "^[a-z]*:e1", "rd", "^$", "^od", "0001"};
static const char* PART[] = {"[^:/]*", "missing", ""};

struct Rt { std::string path; bool exists, list, retrieve, archive, wipe; };
struct Sp { std::string re, handler; std::vector<Rt> roots; };
struct Nm { std::vector<std::pair<std::string, std::string>> kv; std::string format; std::vector<std::pair<bool, std::string>> parts; };
using KV = std::vector<std::pair<std::string, std::string>>;

static std::string joined(const KV& kv) { std::string s, sep; for (auto& [k, v] : kv) { s += sep + v; sep = ":"; } return s; }
static bool has(const KV& kv, const std::string& k, std::string& v) { for (auto& p : kv) if (p.first == k) { v = p.second; return true; } return false; }
static bool matches(const Nm& n, const KV& kv, const char* missing) {
    if (n.kv.size() != kv.size()) return false;
    for (auto& [k, v] : kv) {
        const std::string* re = nullptr;
        for (auto& p : n.kv) if (p.first == k) re = &p.second;
        if (!re) return false;
        if (missing && v == missing) continue;
        if (!eckit::Regex(*re).match(v)) return false;
    }
    return true;
}
// false: no value for a variable
static bool format(const Nm& n, const KV& kv, const char* missing, std::string& out) {
    for (auto& [var, s] : n.parts) {
        if (!var) { out += s; continue; }
        std::string v;
        if (!has(kv, s, v)) return false;
        if (missing && (v == missing || v.empty())) for (auto& p : n.kv) { if (p.first == s) v = p.second; }
        out += v;
    }
    return true;
}
static KV someKey() {
    KV kv;
    std::vector<int> o{0, 1, 2, 3};
    std::shuffle(o.begin(), o.end(), vh::rng);
    if (vh::rnd(3)) o = {0, 1, 2, 3};
    for (int i : o) if (vh::rnd(4)) kv.emplace_back(KW[i], VAL[vh::rnd(7)]);
    return kv;
}
static Key make(const KV& kv) { Key k; for (auto& [n, v] : kv) k.set(n, v); return k; }
static std::vector<std::string> strs(const std::vector<eckit::PathName>& v) { std::vector<std::string> r; for (auto& p : v) r.push_back(p.asString()); return r; }
static std::string show(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += x + ";"; return s; }
static int bits(const ControlIdentifiers& c) {
    int b = 0;
    for (auto i : ControlIdentifierList) if (!c.enabled(i)) b |= int(i);
    return b;
}

static void body() {
    int N_ = vh::thorough ? 6000 : 700;
    fs::path base = fs::path(vh::dir) / "roots";
    for (int c = 0; c < N_; ++c) {
        fs::remove_all(base);
        fs::create_directories(base / ("home" + std::to_string(c)));
        std::string home = (base / ("home" + std::to_string(c))).string();
        // names of databases
        std::vector<Nm> names;
        std::string desc;
        {
            std::ofstream f(home + "/dbnames");
            for (size_t i = vh::rnd(3); i > 0; --i) {
                Nm n;
                std::string re, sep;
                for (int k = 0; k < 4; ++k) {
                    if (vh::rnd(4) == 0) continue;
                    std::string x = vh::rnd(3) ? "[^:/]*" : VAL[vh::rnd(6)];
                    bool plain = x == "[^:/]*" && vh::rnd(2);
                    n.kv.emplace_back(KW[k], x);
                    re += sep + KW[k] + (plain ? "" : "=" + x);
                    sep = ",";
                }
                if (n.kv.empty()) continue;
                for (size_t j = 1 + vh::rnd(4); j > 0; --j) {
                    bool var = vh::rnd(2);
                    std::string s = var ? n.kv[vh::rnd(n.kv.size())].first : vh::rnd(2) ? "x-" : "Y.";
                    if (var && vh::rnd(12) == 0) s = "nosuch";
                    n.parts.emplace_back(var, s);
                    n.format += var ? "{" + s + "}" : s;
                }
                if (vh::rnd(4) == 0) f << "# comment\n\n";
                f << re << (vh::rnd(2) ? "   " : " ") << n.format << "\n";
                desc += "name " + re + " -> " + n.format + "; ";
                names.push_back(n);
            }
        }
        // spaces and roots
        std::vector<Sp> spaces;
        std::vector<eckit::LocalConfiguration> cs;
        int nroot = 0;
        bool storeSide = vh::rnd(2);
        for (size_t i = vh::rnd(4); i > 0; --i) {
            Sp s{RE[vh::rnd(7)], HANDLER[vh::rnd(3) ? 0 : vh::rnd(9)], {}};
            eckit::LocalConfiguration sc;
            std::vector<eckit::LocalConfiguration> rc;
            if (s.re != ".*" || vh::rnd(2)) sc.set("regex", s.re);
            if (s.handler != "Default" || vh::rnd(2)) sc.set("handler", s.handler);
            sc.set("name", "s" + std::to_string(i));
            desc += "space " + s.re + " " + s.handler;
            for (size_t j = 1 + vh::rnd(3); j > 0; --j) {
                Rt r;
                r.path = (base / ("r" + std::to_string(nroot++))).string();
                int st = vh::rnd(5);
                r.exists = st > 0;
                if (st > 0) fs::create_directory(r.path);
                else if (vh::rnd(2)) std::ofstream(r.path) << "not a directory";
                eckit::LocalConfiguration q;
                q.set("path", r.path);
                bool visit = true, writable = true;
                if (vh::rnd(3) == 0) q.set("visit", visit = vh::rnd(2));
                if (vh::rnd(3) == 0) q.set("writable", writable = vh::rnd(2));
                r.list = r.retrieve = visit;
                r.archive = r.wipe = writable;
                if (vh::rnd(4) == 0) q.set("list", r.list = vh::rnd(2));
                if (vh::rnd(4) == 0) q.set("retrieve", r.retrieve = vh::rnd(2));
                if (vh::rnd(4) == 0) q.set("archive", r.archive = vh::rnd(2));
                if (vh::rnd(4) == 0) q.set("wipe", r.wipe = vh::rnd(2));
                desc += " r" + std::to_string(nroot - 1) + "(" + (r.exists ? "" : "absent ") + (r.list ? "l" : "") + (r.retrieve ? "r" : "") + (r.archive ? "a" : "") + (r.wipe ? "w" : "") + ")";
                rc.push_back(q);
                s.roots.push_back(r);
            }
            desc += "; ";
            sc.set(vh::rnd(2) ? "roots" : storeSide ? "storeRoots" : "catalogueRoots", rc);
            cs.push_back(sc);
            spaces.push_back(s);
        }
        eckit::LocalConfiguration lc;
        lc.set("fdb_home", home);
        lc.set("spaces", cs);
        Config config(lc);
        auto manager = [&]() -> std::unique_ptr<RootManager> {
            if (storeSide) return std::make_unique<StoreRootManager>(config);
            return std::make_unique<CatalogueRootManager>(config);
        };
        for (int op = 0; op < 10; ++op) {
            KV kv = someKey();
            Key key = make(kv);
            std::string ks = joined(kv);
            int what = vh::rnd(5);
            vh::kase("%s key %s operation %d", desc.substr(0, 2500).c_str(), ([&] { std::ostringstream o; o << key; return o.str(); })().c_str(), what);
            auto m = manager();
            if (what == 0) {  // roots
                for (int w = 0; w < 3; ++w) {
                    std::set<std::string> want;
                    for (auto& s : spaces) {
                        if (!eckit::Regex(s.re).match(ks) && !(w == 0 && ks.empty())) continue;
                        for (auto& r : s.roots) if (r.exists && (w == 0 ? r.list : w == 1 ? r.archive : r.wipe)) want.insert(r.path);
                    }
                    auto got = strs(w == 0 ? m->visitableRoots(key) : w == 1 ? m->canArchiveRoots(key) : m->canMoveToRoots(key));
                    std::sort(got.begin(), got.end());
                    CHECK("roots", got == std::vector<std::string>(want.begin(), want.end()), << w << " got " << show(got) << " wanted " << want.size());
                }
                continue;
            }
            if (what == 1) {  // roots of several keys
                std::set<Key> keys;
                std::set<std::string> want;
                std::vector<std::string> kss;
                for (size_t i = vh::rnd(4); i > 0; --i) { KV q = someKey(); keys.insert(make(q)); kss.push_back(joined(q)); }
                for (auto& s : spaces) {
                    bool any = false;
                    for (auto& q : kss) any = any || q.empty() || eckit::Regex(s.re).match(q);
                    for (auto& r : s.roots) if (any && r.exists && r.list) want.insert(r.path);
                }
                auto got = strs(m->visitableRoots(keys));
                std::sort(got.begin(), got.end());
                CHECK("roots-of-keys", got == std::vector<std::string>(want.begin(), want.end()), << " got " << show(got) << " wanted " << want.size());
                continue;
            }
            std::string dbname = ks;
            bool named = true;
            for (auto& n : names) if (matches(n, kv, nullptr)) { dbname.clear(); named = format(n, kv, nullptr, dbname); break; }
            if (what == 2) {  // names
                std::string got;
                bool t = vh::throws([&] { got = m->dbPathName(key); });
                CHECK("name-refused", t == !named);
                if (!t) CHECK("name", got == dbname, << "got " << got << " wanted " << dbname);
                continue;
            }
            if (what == 3) {  // partial names
                const char* missing = PART[vh::rnd(3)];
                KV pk = kv;
                Key p;
                for (auto& [k, v] : pk) { if (vh::rnd(3) == 0) v = missing; p.set(k, v); }
                std::vector<std::string> want, got;
                bool ok = true;
                for (auto& n : names) if (ok && matches(n, pk, missing)) { std::string s; ok = format(n, pk, missing, s); want.push_back(s); }
                std::string s, sep;
                for (auto& [k, v] : pk) { s += sep + (v.empty() ? missing : v); sep = ":"; }
                want.push_back(s);
                bool t = vh::throws([&] { got = m->possibleDbPathNames(p, missing); });
                CHECK("partial-refused", t == !ok);
                if (!t) CHECK("partial-names", got == want, << "missing '" << missing << "' got " << show(got) << " wanted " << show(want));
                continue;
            }
            // directory of a database
            if (!named || dbname.empty() || dbname == "." || dbname == "..") continue;
            for (auto& s : spaces) for (auto& r : s.roots) if (r.exists) { fs::remove_all(r.path); fs::create_directory(r.path); }
            const Sp* space = nullptr;
            for (auto& s : spaces) if (!space && eckit::Regex(s.re).match(ks)) space = &s;
            std::string wantDir;
            int wantBits = 0, counted = 0;
            bool found = false;
            for (auto& s : spaces) {
                for (auto& r : s.roots) {
                    if (!r.exists) continue;
                    // another database and perhaps this one, with or without toc
                    fs::create_directory(r.path + "/other");
                    std::ofstream(r.path + "/other/toc") << "x";
                    if (vh::rnd(3)) continue;
                    std::string dir = r.path + "/" + (vh::rnd(4) ? dbname : eckit::StringTools::upper(dbname));
                    fs::create_directory(dir);
                    bool toc = vh::rnd(4), multi = vh::rnd(4) == 0;
                    if (toc) std::ofstream(dir + "/toc") << "x";
                    if (multi) std::ofstream(dir + "/duplicates.allow") << "";
                    if (&s != space || !toc || !r.list) continue;
                    if (!counted || multi) { found = true; wantDir = dir; wantBits = (r.list ? 0 : 1) | (r.retrieve ? 0 : 2) | (r.archive ? 0 : 4) | (r.wipe ? 0 : 8); }
                    if (!multi) ++counted;
                }
            }
            std::set<std::string> fresh;
            std::string first;
            if (space) for (auto& r : space->roots) if (r.exists && r.archive) { if (fresh.empty()) first = r.path; fresh.insert(r.path + "/" + dbname); }
            bool refused = !space || counted > 1 || (!found && fresh.empty());
            std::string why;
            TocPath got;
            bool t = vh::throws([&] { got = m->directory(key); }, &why);
            CHECK("directory-refused", t == refused, << "thrown " << why << " counted " << counted << " found " << found);
            if (t || refused) continue;
            std::string g = got.directory_.asString();
            if (found) {
                CHECK("existing-database", g == wantDir, << "got " << g << " wanted " << wantDir);
                CHECK("existing-database-rights", bits(got.controlIdentifiers_) == wantBits, << "got " << bits(got.controlIdentifiers_) << " wanted " << wantBits);
            }
            else {
                CHECK("new-database", fresh.count(g) && (std::string(space->handler) == "Default" || std::string(space->handler) == "First" ? g == first + "/" + dbname : true), << "got " << g << " first " << first << " handler " << space->handler);
                CHECK("new-database-rights", bits(got.controlIdentifiers_) == 0);
            }
        }
    }
    fs::remove_all(base);
}
int main(int argc, char** argv) {
    setenv("FDB_DBNAMES_FILE", "~fdb/dbnames", 1);
    unsetenv("FDB_ROOT_DIRECTORY");
    eckit::Main::initialise(argc, argv);
    return vh::run(argc, argv, body);
}
