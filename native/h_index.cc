// index axes: no entry is missed, exact membership, merge, serialisation, shared read-only axes
#include "vh.h"
#include <algorithm>
#include <map>
#include "eckit/container/DenseSet.h"
#include "eckit/io/Buffer.h"
#include "eckit/runtime/Main.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
#include "metkit/mars/MarsRequest.h"
#include "fdb5/database/AxisRegistry.h"
#include "fdb5/database/Index.h"
#include "fdb5/database/IndexAxis.h"
#include "fdb5/database/Key.h"
using namespace fdb5;
using Ref = std::map<std::string, std::set<std::string>>;
static const char* KW[] = {"step", "param", "levelist", "number", "time"};
static const char* VAL[] = {"", "0", "1", "10", "2", "24-48", "od", "zz", "1000"};

static std::string str(const Ref& r) { std::string s; for (auto& p : r) { s += p.first + "="; for (auto& v : p.second) s += v + "/"; s += " "; } return s; }
static Key rkey(size_t n, std::string& d) {
    Key k;
    for (size_t i = 0; i < n; ++i) k.set(KW[i], VAL[vh::rnd(9)]);
    d = std::string(k) + "(" + k.valuesToString() + ")";
    return k;
}
static bool has(const Ref& r, const Key& k) { for (auto& p : r) { auto [it, f] = k.find(p.first); if (!f || !p.second.count(it->second)) return false; } return true; }
static bool hasPartial(const Ref& r, const Key& k) { for (auto& p : k) { auto i = r.find(p.first); if (i == r.end() || !i->second.count(p.second)) return false; } return true; }

static void same(const IndexAxis& a, const Ref& r, const char* id) {
    auto m = a.map();
    Ref got;
    for (auto& p : m) { got[p.first] = std::set<std::string>(p.second.begin(), p.second.end()); CHECK(id, std::is_sorted(p.second.begin(), p.second.end())); }
    CHECK(id, got == r, << str(got));
    for (auto kw : KW) {
        CHECK(id, a.has(kw) == bool(r.count(kw)));
        if (r.count(kw)) { auto& v = a.values(kw); CHECK(id, std::set<std::string>(v.begin(), v.end()) == r.at(kw)); }
        else if (!r.empty()) CHECK(id, vh::throws([&] { a.values(kw); }));
    }
}
static void queries(const IndexAxis& a, const Ref& r, const std::vector<Key>& in, const char* id) {
    for (auto& k : in) CHECK("false-negative", a.contains(k) && a.containsPartial(k), << id << " " << k.valuesToString());
    for (int j = 0; j < 12; ++j) {
        std::string d;
        Key k;
        for (auto kw : KW) if (vh::rnd(3)) k.set(kw, VAL[vh::rnd(9)]);
        vh::kase("%s axes %s key %s", id, str(r).c_str(), std::string(k).c_str());
        CHECK("contains", a.contains(k) == has(r, k));
        CHECK("contains-partial", a.containsPartial(k) == hasPartial(r, k));
        metkit::mars::MarsRequest req("list");
        bool want = true;
        for (auto kw : KW) if (vh::rnd(2)) {
            std::vector<std::string> v;
            for (size_t n = 1 + vh::rnd(3); n-- > 0;) v.push_back(VAL[vh::rnd(9)]);
            req.values(kw, v);
            d += std::string(kw) + "=";
            bool any = false;
            for (auto& x : v) { any |= r.count(kw) && r.at(kw).count(x); d += x + "/"; }
            if (r.count(kw)) want &= any;
        }
        vh::kase("%s axes %s request %s", id, str(r).c_str(), d.c_str());
        CHECK("partial-match", a.partialMatch(req) == want);
    }
}
static IndexAxis* roundtrip(const IndexAxis& a, int version) {
    eckit::Buffer b(4096);
    eckit::ResizableMemoryStream s(b);
    a.encode(s, version);
    CHECK("encode-size", version < 3 || size_t(s.position()) <= a.encodeSize(version) + 16, << s.position() << ">" << a.encodeSize(version));
    eckit::MemoryStream in(b);
    return new IndexAxis(in, version);
}

static void axes() {
    std::vector<std::pair<IndexAxis*, Ref>> live;
    for (int run = 0; run < (vh::thorough ? 6000 : 700); ++run) {
        IndexAxis a;
        Ref r;
        std::vector<Key> in;
        std::string log;
        size_t nk = 1 + vh::rnd(5);
        CHECK("clean", !a.dirty());
        for (int i = 1 + vh::rnd(8); i-- > 0;) {
            std::string d;
            Key k = rkey(nk, d);
            log += d;
            vh::kase("insert %s", log.c_str());
            a.insert(k);
            in.push_back(k);
            for (auto& p : k) r[p.first].insert(p.second);
            CHECK("dirty", a.dirty());
        }
        if (vh::rnd(4) == 0) {
            std::vector<std::string> vs;
            std::string kw = KW[vh::rnd(nk)];
            for (int i = vh::rnd(4); i-- > 0;) vs.push_back(VAL[vh::rnd(9)]);
            log += "values " + kw;
            vh::kase("insert %s", log.c_str());
            a.insert(kw, vs);
            for (auto& v : vs) r[kw].insert(v);
        }
        a.sort();
        vh::kase("insert %s", log.c_str());
        same(a, r, "axes");
        queries(a, r, in, "built");
        for (int v : {1, 2, 3}) {
            vh::kase("round trip version %d of %s", v, str(r).c_str());
            IndexAxis* d = roundtrip(a, v);
            same(*d, r, "decoded");
            CHECK("equal", *d == a && !(*d != a));
            queries(*d, r, in, "decoded");
            CHECK("read-only", vh::throws([&] { d->insert(in[0]); }) && vh::throws([&] { d->wipe(); }) && vh::throws([&] { d->merge(a); }));
            if (v == 3) live.emplace_back(d, r); else delete d;
        }
        // merge into a copy; the source and other read-only axes stay as they were
        IndexAxis m;
        Ref mr;
        if (vh::rnd(2)) { std::string d; for (int i = 1 + vh::rnd(3); i-- > 0;) { Key k = rkey(1 + vh::rnd(5), d); m.insert(k); for (auto& p : k) mr[p.first].insert(p.second); } m.sort(); }
        for (int i = 0; i < 2; ++i) {
            auto& o = live[vh::rnd(live.size())];
            vh::kase("merge %s into %s", str(o.second).c_str(), str(mr).c_str());
            m.merge(*o.first);
            for (auto& p : o.second) mr[p.first].insert(p.second.begin(), p.second.end());
            same(m, mr, "merged");
            std::string d;
            Key k = rkey(5, d);
            m.insert(k);
            m.sort();
            for (auto& p : k) mr[p.first].insert(p.second);
            same(m, mr, "merged-insert");
            CHECK("not-equal", (m == *o.first) == (mr == o.second));
        }
        while (live.size() > 30) { size_t i = vh::rnd(live.size()); vh::kase("release of %s", str(live[i].second).c_str()); delete live[i].first; live.erase(live.begin() + i); }
        for (int i = 0; i < 3 && !live.empty(); ++i) { auto& o = live[vh::rnd(live.size())]; vh::kase("read-only axes %s after others were released or merged", str(o.second).c_str()); same(*o.first, o.second, "shared"); }
        a.clean();
        CHECK("clean", !a.dirty());
        a.wipe();
        CHECK("wiped", a.map().empty() && !a.dirty());
    }
}

int main(int argc, char** argv) {
    eckit::Main::initialise(1, argv);
    return vh::run(argc, argv, [] { axes(); });
}
