// selecting FDB: fields go to the first lane that accepts them, requests reach every lane that can hold a match
#include "vh.h"
#include <map>
#include "eckit/config/LocalConfiguration.h"
#include "eckit/runtime/Main.h"
#include "metkit/mars/MarsRequest.h"
#include "fdb5/api/FDBFactory.h"
#include "fdb5/api/SelectFDB.h"
#include "fdb5/api/helpers/FDBToolRequest.h"
#include "fdb5/api/helpers/ListIterator.h"
#include "fdb5/api/helpers/PurgeIterator.h"
#include "fdb5/api/helpers/WipeIterator.h"
#include "fdb5/database/Key.h"
#include "fdb5/database/WipeState.h"
using namespace fdb5;
using metkit::mars::MarsRequest;

static std::vector<std::string> calls;      // what reached the lanes, in order
static std::map<std::string, int> made;
static std::map<std::string, int> answers;

template <class T>
struct N : APIIteratorBase<T> {
    std::vector<T> v; size_t i = 0;
    bool next(T& e) override { if constexpr (std::is_copy_assignable_v<T>) { if (i < v.size()) { e = v[i++]; return true; } } return false; }
};
static std::string rq(const MarsRequest& r) { std::ostringstream o; r.dump(o, "", ""); return o.str(); }
struct Lane : FDBBase {
    std::string tag;
    Lane(const Config& c, const std::string& n) : FDBBase(c, n), tag(c.getString("tag")) { ++made[tag]; }
    void say(const std::string& s) { calls.push_back(tag + " " + s); }
    void archive(const Key& k, const void* d, size_t n) override { std::ostringstream o; o << "archive " << k << " " << std::string((const char*)d, n); say(o.str()); }
    void flush() override { say("flush"); }
    template <class T> APIIterator<T> none(const std::string& what) { say(what); return APIIterator<T>(new N<T>()); }
    ListIterator els(const std::string& what) {
        say(what);
        auto* n = new N<ListElement>();
        for (int i = 0; i < answers[tag]; ++i) { Key k; k.set("lane", tag); k.set("n", std::to_string(i)); n->v.push_back(ListElement({k}, 0)); }
        return ListIterator(APIIterator<ListElement>(n));
    }
    ListIterator inspect(const MarsRequest& r) override { return els("inspect " + rq(r)); }
    ListIterator list(const FDBToolRequest& r, int l) override { return els("list " + rq(r.request()) + " " + std::to_string(r.all()) + std::to_string(l)); }
    DumpIterator dump(const FDBToolRequest& r, bool s) override {
        say("dump " + rq(r.request()) + " " + std::to_string(r.all()) + std::to_string(s));
        auto* n = new N<DumpElement>();
        for (int i = 0; i < answers[tag]; ++i) n->v.push_back(tag + "/" + std::to_string(i));
        return DumpIterator(n);
    }
    StatusIterator status(const FDBToolRequest& r) override { return none<StatusElement>("status " + rq(r.request()) + " " + std::to_string(r.all())); }
    WipeStateIterator wipe(const FDBToolRequest& r, bool a, bool b, bool c) override { return none<CatalogueWipeState>("wipe " + rq(r.request()) + " " + std::to_string(r.all()) + std::to_string(a) + std::to_string(b) + std::to_string(c)); }
    PurgeIterator purge(const FDBToolRequest& r, bool a, bool b) override { return none<PurgeElement>("purge " + rq(r.request()) + " " + std::to_string(r.all()) + std::to_string(a) + std::to_string(b)); }
    StatsIterator stats(const FDBToolRequest& r) override { return none<StatsElement>("stats " + rq(r.request()) + " " + std::to_string(r.all())); }
    ControlIterator control(const FDBToolRequest& r, ControlAction a, ControlIdentifiers i) override { std::ostringstream o; o << i; return none<ControlElement>("control " + rq(r.request()) + " " + std::to_string(r.all()) + std::to_string((int)a) + o.str()); }
    MoveIterator move(const FDBToolRequest&, const eckit::URI&) override { NOTIMP; }
    AxesIterator axesIterator(const FDBToolRequest& r, int l) override { return none<AxesElement>("axes " + rq(r.request()) + " " + std::to_string(r.all()) + std::to_string(l)); }
    void print(std::ostream& s) const override { s << "lane"; }
};
static FDBBuilder<Lane> builder("vhlane");

static const char* KW[] = {"class", "expver", "stream", "type"};
static const char* VAL[] = {"od", "rd", "e1", "0001"};
using Cond = std::map<std::string, std::set<std::string>>;
using Vals = std::map<std::string, std::vector<std::string>>;
static Cond cond(size_t maxn) {
    Cond c;
    for (size_t i = vh::rnd(maxn + 1); i > 0; --i) {
        auto& s = c[KW[vh::rnd(4)]];
        for (size_t j = 1 + vh::rnd(2); j > 0; --j) s.insert(VAL[vh::rnd(4)]);
    }
    return c;
}
static std::string text(const Cond& c) {
    std::string t;
    for (auto& [k, s] : c) {
        if (!t.empty()) t += ",";
        t += k + "=^(";
        bool f = true;
        for (auto& v : s) { if (!f) t += "|"; f = false; t += v; }
        t += ")$";
    }
    return t;
}
// missing: what a keyword that is not given counts as; any: one value is enough
static bool holds(const Cond& c, const Vals& v, bool missing, bool any) {
    for (auto& [k, s] : c) {
        auto it = v.find(k);
        if (it == v.end()) { if (!missing) return false; continue; }
        size_t n = 0;
        for (auto& x : it->second) n += s.count(x);
        if (any ? n == 0 : n != it->second.size()) return false;
    }
    return true;
}
struct L { Cond select; std::vector<Cond> excludes; };
static bool accepts(const L& l, const Vals& v, bool missing) {
    if (!holds(l.select, v, missing, true)) return false;
    for (auto& e : l.excludes) if (holds(e, v, false, false)) return false;
    return true;
}

static void body() {
    int N_ = vh::thorough ? 20000 : 2500;
    for (int c = 0; c < N_; ++c) {
        std::vector<L> lanes;
        std::vector<eckit::LocalConfiguration> subs;
        std::string desc;
        answers.clear(); made.clear();
        for (size_t i = 0, n = vh::rnd(5); i < n; ++i) {
            L l;
            do l.select = cond(2); while (l.select.empty());
            for (size_t j = vh::rnd(3); j > 0; --j) { Cond e = cond(2); if (!e.empty()) l.excludes.push_back(e); }
            eckit::LocalConfiguration s;
            s.set("type", "vhlane");
            s.set("tag", "l" + std::to_string(i));
            s.set("select", text(l.select));
            std::vector<std::string> ex;
            for (auto& e : l.excludes) ex.push_back(text(e));
            if (!ex.empty() || vh::rnd(3) == 0) s.set("excludes", ex);
            answers["l" + std::to_string(i)] = vh::rnd(3);
            desc += "[" + text(l.select);
            for (auto& e : ex) desc += " except " + e;
            desc += "] ";
            lanes.push_back(l);
            subs.push_back(s);
        }
        eckit::LocalConfiguration cfg;
        cfg.set("type", "select");
        cfg.set("fdbs", subs);
        std::shared_ptr<FDBBase> fdb = FDBFactory::instance().build(Config(cfg));
        std::set<std::string> used;
        for (int op = 0; op < 6; ++op) {
            calls.clear();
            int what = vh::rnd(12);
            Vals v;
            for (size_t i = vh::rnd(5); i > 0; --i) {
                auto& x = v[KW[vh::rnd(4)]];
                x.clear();
                std::set<std::string> s;
                for (size_t j = what < 3 ? 1 : 1 + vh::rnd(3); j > 0; --j) s.insert(VAL[vh::rnd(4)]);
                x.assign(s.begin(), s.end());
            }
            std::string vd;
            for (auto& [k, x] : v) { vd += k + "="; for (auto& y : x) vd += y + "/"; vd += ","; }
            vh::kase("lanes %s values %s operation %d", desc.substr(0, 2500).c_str(), vd.c_str(), what);
            std::vector<std::string> want;
            auto tag = [&](size_t i) { return "l" + std::to_string(i); };
            if (what < 3) {
                Key k;
                for (auto& [kw, x] : v) k.set(kw, x[0]);
                std::string data = "data" + std::to_string(op);
                bool thrown = vh::throws([&] { fdb->archive(k, data.data(), data.size()); });
                std::ostringstream o;
                o << "archive " << k << " " << data;
                size_t i = 0;
                while (i < lanes.size() && !accepts(lanes[i], v, false)) ++i;
                if (i < lanes.size()) { want.push_back(tag(i) + " " + o.str()); used.insert(tag(i)); }
                CHECK("archive-refused", thrown == (i == lanes.size()));
                CHECK("archive-lane", calls == want, << "got " << (calls.empty() ? "nothing" : calls[0]) << " wanted " << (want.empty() ? "nothing" : want[0]));
                continue;
            }
            if (what == 3) {
                fdb->flush();
                std::set<std::string> got(calls.begin(), calls.end()), w;
                for (auto& t : used) w.insert(t + " flush");
                CHECK("flush-lanes", got == w && calls.size() == w.size());
                continue;
            }
            MarsRequest r("retrieve");
            for (auto& [k, x] : v) r.values(k, x);
            std::vector<std::string> gotEls, wantEls;
            bool all = what > 4 && vh::rnd(4) == 0;
            bool missing = what != 4;
            FDBToolRequest tr(r, all);
            int a = vh::rnd(2), b = vh::rnd(2), d = vh::rnd(2);
            std::string q, tail = " " + std::to_string(all);
            auto els = [&](auto it) { ListElement e; while (it.next(e)) { std::ostringstream o; o << e.keys()[0].get("lane") << "/" << e.keys()[0].get("n"); gotEls.push_back(o.str()); } };
            auto drain = [](auto it, auto e) { while (it.next(e)) {} };
            if (what == 4) { els(fdb->inspect(r)); q = "inspect " + rq(r); }
            else if (what == 5) { els(fdb->list(tr, 1 + a)); q = "list " + rq(r) + tail + std::to_string(1 + a); }
            else if (what == 6) { auto it = fdb->dump(tr, a); DumpElement e; while (it.next(e)) gotEls.push_back(e); q = "dump " + rq(r) + tail + std::to_string(a); }
            else if (what == 7) { auto it = fdb->status(tr); q = "status " + rq(r) + tail; }
            else if (what == 8) { auto it = fdb->wipe(tr, a, b, d); q = "wipe " + rq(r) + tail + std::to_string(a) + std::to_string(b) + std::to_string(d); }
            else if (what == 9) { auto it = fdb->purge(tr, a, b); q = "purge " + rq(r) + tail + std::to_string(a) + std::to_string(b); }
            else if (what == 10) { auto it = fdb->stats(tr); auto it2 = fdb->axesIterator(tr, a); q = "stats " + rq(r) + tail; }
            else {
                ControlIdentifiers ids; ids |= ControlIdentifier::Archive; if (b) ids |= ControlIdentifier::Wipe;
                std::ostringstream o; o << ids;
                auto it = fdb->control(tr, a ? ControlAction::Disable : ControlAction::Enable, ids);
                q = "control " + rq(r) + tail + std::to_string((int)(a ? ControlAction::Disable : ControlAction::Enable)) + o.str();
            }
            std::vector<std::string> second;
            for (size_t i = 0; i < lanes.size(); ++i) {
                if (!all && !accepts(lanes[i], v, missing)) continue;
                used.insert(tag(i));
                want.push_back(tag(i) + " " + q);
                if (what == 10) second.push_back(tag(i) + " axes " + rq(r) + tail + std::to_string(a));
                if (what < 7) for (int j = 0; j < answers[tag(i)]; ++j) wantEls.push_back(tag(i) + "/" + std::to_string(j));
            }
            for (auto& s : second) want.push_back(s);
            std::sort(want.begin(), want.end());
            std::sort(calls.begin(), calls.end());
            CHECK("request-lanes", calls == want, << "lanes asked " << calls.size() << " wanted " << want.size());
            std::sort(wantEls.begin(), wantEls.end());
            std::sort(gotEls.begin(), gotEls.end());
            CHECK("request-answers", gotEls == wantEls, << gotEls.size() << " answers, wanted " << wantEls.size());
        }
        for (auto& [t, n] : made) CHECK("lane-created-once", n == 1);
    }
}
int main(int argc, char** argv) {
    eckit::Main::initialise(argc, argv);
    return vh::run(argc, argv, body);
}
