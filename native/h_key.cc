// keys: model-based sequences of operations, matching against brute force, canonical values
#include "vh.h"
#include <map>
#include <algorithm>
#include "eckit/container/DenseSet.h"
#include "eckit/io/Buffer.h"
#include "eckit/runtime/Main.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
#include "eckit/serialisation/MemoryStream.h"
#include "metkit/mars/MarsRequest.h"
#include "fdb5/database/Key.h"
#include "fdb5/types/Type.h"
#include "fdb5/types/TypesRegistry.h"
using fdb5::Key;
using Map = std::map<std::string, std::string>;
using Names = std::vector<std::string>;

struct Ref {
    Map m;
    Names n;
    std::string str() const { std::string s; for (auto& k : n) s += k + "=" + (m.count(k) ? m.at(k) : "?") + ","; return s; }
    void set(const std::string& k, std::string v) {
        for (auto& c : v) c = std::tolower(c);
        if (!m.count(k)) n.push_back(k);
        m[k] = v;
    }
    void unset(const std::string& k) { m.erase(k); n.erase(std::remove(n.begin(), n.end(), k), n.end()); }
    void push(const std::string& k, const std::string& v) { m[k] = v; n.push_back(k); }
    bool has(const std::string& k) const { return m.count(k); }
};
static const char* KW[] = {"class", "step", "param", "levelist", "date", "expver", "a", "zz"};
static const char* VAL[] = {"", "1", "10", "Oper", "OD", "x y", "oper", "2t", "20200101", "RD"};
static std::string kw() { return KW[vh::rnd(8)]; }
static std::string val() { return VAL[vh::rnd(10)]; }

static void same(const Key& k, const Ref& r, const char* id) {
    CHECK(id, k.keyDict() == r.m);
    CHECK(id, k.names() == r.n);
    CHECK(id, k.size() == r.m.size() && k.empty() == r.m.empty());
    std::set<std::string> ks;
    for (auto& p : r.m) ks.insert(p.first);
    CHECK(id, k.keys() == ks);
    for (auto kwd : KW) {
        auto [it, found] = k.find(kwd);
        CHECK(id, found == r.has(kwd));
        if (found && r.has(kwd)) {
            CHECK(id, k.get(kwd) == r.m.at(kwd) && k.value(kwd) == r.m.at(kwd) && k[kwd] == r.m.at(kwd));
        }
        else CHECK(id, vh::throws([&] { k.get(kwd); }));
    }
    if (r.m.size() == r.n.size()) {
        std::string v, s, v2;
        const char *sep = "", *sep2 = "";
        bool full = true;
        for (auto& n : r.n) {
            v += sep + r.m.at(n);
            sep = ":";
            if (!r.m.at(n).empty()) { s += sep2 + n + "=" + r.m.at(n); sep2 = ","; }
            else full = false;
        }
        CHECK("values-string", k.valuesToString() == v, << k.valuesToString());
        CHECK("string", std::string(k) == s, << std::string(k));
        if (full) {
            eckit::StringDict d = k;
            CHECK("dict", Map(d.begin(), d.end()) == r.m);
            Key p = Key::parse(s);
            CHECK("parse", p == k && p.names() == k.names());
        }
        else CHECK("dict-empty", vh::throws([&] { eckit::StringDict d = k; }));
    }
    else CHECK("values-string-mismatch", vh::throws([&] { k.valuesToString(); }));
}

static void serial(const Key& k, const Ref& r) {
    eckit::Buffer b(1024);
    eckit::ResizableMemoryStream s(b);
    s << k;
    CHECK("encode-size", size_t(s.position()) <= k.encodeSize() + 64, << s.position() << " " << k.encodeSize());
    eckit::MemoryStream in(b);
    Key d(in);
    Ref e = r;
    for (auto& p : e.m) for (auto& c : p.second) c = std::tolower(c);
    CHECK("decode", d.keyDict() == e.m && d.names() == e.n);
    Key d2{{"old", "1"}};
    eckit::MemoryStream in2(b);
    in2 >> d2;
    CHECK("decode-over", d2.keyDict() == e.m && d2.names() == e.n);
}

static void ops() {
    for (int run = 0; run < (vh::thorough ? 12000 : 1500); ++run) {
        Key k;
        Ref r;
        std::string log;
        int len = 1 + vh::rnd(14);
        for (int i = 0; i < len; ++i) {
            auto K = kw(), V = val();
            switch (vh::rnd(9)) {
                case 0: case 1: case 2:
                    if (r.n.size() != r.m.size()) break;
                    log += "set(" + K + "," + V + ")";
                    vh::kase("ops %s", log.c_str());
                    k.set(K, V); r.set(K, V); break;
                case 3:
                    log += "unset(" + K + ")";
                    vh::kase("ops %s", log.c_str());
                    k.unset(K); r.unset(K); break;
                case 4: case 5:
                    if (r.has(K)) break;
                    log += "push(" + K + "," + V + ")";
                    vh::kase("ops %s", log.c_str());
                    k.push(K, V); r.push(K, V); break;
                case 6: {
                    if (r.n.empty()) break;
                    K = r.n.back();
                    log += "pop(" + K + ")";
                    vh::kase("ops %s", log.c_str());
                    k.pop(K); r.unset(K); break;
                }
                case 7: {
                    Key o; Ref q;
                    for (int j = vh::rnd(4); j-- > 0;) { auto K2 = kw(), V2 = val(); if (!r.has(K2) && !q.has(K2)) { o.push(K2, V2); q.push(K2, V2); } }
                    log += "pushFrom(" + q.str() + ")";
                    vh::kase("ops %s", log.c_str());
                    k.pushFrom(o);
                    Ref r0 = r;
                    for (auto& n : q.n) r.push(n, q.m[n]);
                    if (vh::rnd(2)) { same(k, r, "push-from"); log += "popFrom"; vh::kase("ops %s", log.c_str()); k.popFrom(o); r = r0; }
                    break;
                }
                case 8: if (vh::rnd(4) == 0) { log += "clear"; vh::kase("ops %s", log.c_str()); k.clear(); r = Ref(); }
            }
            same(k, r, "state");
        }
        if (r.n.size() > 1) {
            Key k2 = k;
            std::string notlast = r.n.front();
            vh::kase("ops %s pop(%s) not last", log.c_str(), notlast.c_str());
            CHECK("pop-order", vh::throws([&] { k2.pop(notlast); }));
        }
        vh::kase("serial %s", r.str().c_str());
        serial(k, r);
        Key c(Map(r.m));
        Ref rc; for (auto& p : r.m) rc.push(p.first, p.second);
        same(c, rc, "from-dict");
        // order and equality are those of the maps
        Key o; Ref q;
        for (int j = vh::rnd(5); j-- > 0;) { auto K2 = kw(), V2 = val(); o.set(K2, V2); q.set(K2, V2); }
        vh::kase("compare %s with %s", r.str().c_str(), q.str().c_str());
        CHECK("equal", (k == o) == (r.m == q.m) && (k != o) == (r.m != q.m));
        CHECK("less", (k < o) == (r.m < q.m));
    }
}

static void matching() {
    for (int run = 0; run < (vh::thorough ? 40000 : 6000); ++run) {
        Key k, o; Ref r, q;
        for (int j = vh::rnd(5); j-- > 0;) { auto K2 = kw(), V2 = val(); k.set(K2, V2); r.set(K2, V2); }
        int mode = vh::rnd(3);
        if (mode) for (auto& n : r.n) if (vh::rnd(3)) { auto V2 = vh::rnd(5) ? r.m[n] : val(); o.set(n, V2); q.set(n, V2); }
        if (mode != 1) for (int j = vh::rnd(3); j-- > 0;) { auto K2 = kw(), V2 = val(); o.set(K2, V2); q.set(K2, V2); }
        vh::kase("match {%s} with {%s}", r.str().c_str(), q.str().c_str());
        bool want = true, pres = true, eq = true;
        for (auto& p : q.m) {
            want &= r.has(p.first) && r.m[p.first] == p.second && !p.second.empty();
            pres &= r.has(p.first);
            if (r.has(p.first)) eq &= r.m[p.first] == p.second;
        }
        CHECK("match", k.match(o) == want);
        CHECK("validate", vh::throws([&] { k.validateKeys(o); }) == !pres);
        CHECK("validate-values", vh::throws([&] { k.validateKeys(o, true); }) == !(pres && eq));
        // requests
        metkit::mars::MarsRequest req("retrieve");
        std::map<std::string, Names> rv;
        for (auto& n : r.n) if (vh::rnd(4)) { Names v; for (int j = vh::rnd(3); j-- > 0;) v.push_back(val()); if (vh::rnd(3)) v.insert(v.begin() + vh::rnd(v.size() + 1), r.m[n]); if (!v.empty()) rv[n] = v; }
        if (vh::rnd(4) == 0) rv[kw()] = {val(), "1"};
        std::string desc;
        for (auto& p : rv) { req.values(p.first, p.second); desc += p.first + "="; for (auto& v : p.second) desc += v + "/"; desc += ","; }
        vh::kase("match {%s} with request %s", r.str().c_str(), desc.c_str());
        bool m = true, pm = true;
        for (auto& p : rv) {
            bool in = r.has(p.first) && std::find(p.second.begin(), p.second.end(), r.m[p.first]) != p.second.end();
            m &= in;
            if (r.has(p.first)) pm &= in;
        }
        CHECK("match-request", k.match(req) == m);
        CHECK("partial-match", k.partialMatch(req) == pm);
        for (auto kwd : KW) {
            eckit::DenseSet<std::string> ds;
            std::set<std::string> ref;
            for (int j = vh::rnd(4); j-- > 0;) { auto v = vh::rnd(2) && r.has(kwd) ? r.m[kwd] : val(); ds.insert(v); ref.insert(v); }
            ds.sort();
            CHECK("match-values", k.matchValues(kwd, ds) == (r.has(kwd) && ref.count(r.m[kwd])));
        }
    }
}

static void typed() {
    fdb5::TypesRegistry reg;
    reg.addType("date", "Date");
    reg.addType("expver", "Expver");
    reg.addType("step", "Step");
    reg.addType("time", "Time");
    reg.addType("grid", "Grid");
    reg.addType("level", "Double");
    reg.addType("cut", "First3");
    reg.addType("ign", "Ignore");
    reg.addType("cm", "ClimateMonthly");
    struct C { const char *k, *v, *tidy, *canon; };
    const C cs[] = {{"date", "20200229", "20200229", "20200229"}, {"expver", "1", "0001", "1"}, {"expver", " 12 ", "0012", " 12 "}, {"step", "0-24", "0-24", "0-24"},
                    {"step", "24-24", "24-24", "24"}, {"time", "6", "0600", "0600"}, {"time", "12", "1200", "1200"}, {"time", "0630", "0630", "0630"}, {"time", "06:45:00", "0645", "0645"},
                    {"grid", "1/1", "1/1", "1+1"}, {"level", "1.0", "1.0", "1"}, {"level", "2.5", "2.5", "2.5"}, {"cut", "abcdef", "abcdef", "abc"}, {"ign", "x", "x", ""},
                    {"cm", "20200301", "20200301", "3"}, {"cm", "dec", "dec", "12"}, {"class", "OD", "od", "od"}, {"class", "", "", ""}, {"time", "", "", ""}, {"cm", "", "", ""}};
    for (int run = 0; run < (vh::thorough ? 4000 : 500); ++run) {
        fdb5::TypedKey tk(reg);
        Ref t, c;
        std::string log;
        for (int j = vh::rnd(6); j-- > 0;) {
            const C& x = cs[vh::rnd(sizeof cs / sizeof *cs)];
            if (t.has(x.k)) continue;
            tk.push(x.k, x.v); t.push(x.k, x.tidy); c.push(x.k, x.canon);
            log += std::string(x.k) + "=" + x.v + ",";
        }
        vh::kase("typed %s", log.c_str());
        bool bad = vh::throws([&] {
            same(tk.tidy(), t, "tidy");
            same(tk.canonical(), c, "canonical");
        });
        CHECK("typed-throws", !bad);
    }
}

int main(int argc, char** argv) {
    eckit::Main::initialise(1, argv);
    return vh::run(argc, argv, [] { ops(); matching(); typed(); });
}
