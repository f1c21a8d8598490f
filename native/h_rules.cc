// schema rules: text to matchers, dump and stream round trips (C06), key and request expansion (C07)
#include "vh.h"
#include <algorithm>
#include <map>
#include <optional>
#include "eckit/io/Buffer.h"
#include "eckit/runtime/Main.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
#include "metkit/mars/MarsRequest.h"
#include "fdb5/database/Key.h"
#include "fdb5/database/ReadVisitor.h"
#include "fdb5/database/WriteVisitor.h"
#include "fdb5/rules/Predicate.h"
#include "fdb5/rules/Rule.h"
#include "fdb5/rules/Schema.h"
#include "fdb5/types/Type.h"
#include "fdb5/types/TypesRegistry.h"
using namespace fdb5;
using Strs = std::vector<std::string>;
using Pairs = std::vector<std::pair<std::string, std::string>>;

struct P {
    std::string kw, type, def;
    char kind = 'a';  // a any, v value, i in, x exclude, o optional, h hidden
    std::vector<std::string> vals;
    std::string text() const {
        std::string s = kw + (type.empty() ? "" : ":" + type);
        if (kind == 'o') return s + "?" + def;
        if (kind == 'h') return s + "-" + def;
        if (kind == 'a') return s;
        s += kind == 'x' ? "=!" : "=";
        for (size_t i = 0; i < vals.size(); ++i) s += (i ? "/" : "") + vals[i];
        return s;
    }
    bool optional() const { return kind == 'o' || kind == 'h'; }
    bool match(const std::string& v) const {
        bool in = std::find(vals.begin(), vals.end(), v) != vals.end();
        return kind == 'v' || kind == 'i' ? in : kind == 'x' ? !in : true;
    }
    bool matchKey(const Key& k) const {
        auto [it, f] = k.find(kw);
        if (kind == 'v' || kind == 'i') return f && match(it->second);
        if (kind == 'x') return !f || match(it->second);
        return true;
    }
    std::optional<std::string> value(const Key& k) const {
        if (kind == 'h') return def;
        auto [it, f] = k.find(kw);
        if (f) return it->second;
        if (kind == 'o') return std::string();
        return {};
    }
    Strs optionalValues() const { if (kind == 'h' || def.empty()) return {def}; return {def, ""}; }
};
using Ps = std::vector<P>;
struct RDatum { Ps p; };
struct RIdx { Ps p; RDatum d; };
struct RDb { Ps p; std::vector<RIdx> i; };
struct Ref { std::vector<RDb> dbs; std::map<std::string, std::string> types; };
static std::string plist(const Ps& p) { std::string s; for (auto& x : p) s += (s.empty() ? "" : ", ") + x.text(); return s; }
static std::string text(const Ref& r) {
    std::string s;
    for (auto& t : r.types) s += t.first + ":" + t.second + ";\n";
    for (auto& d : r.dbs) {
        s += "[" + plist(d.p);
        for (auto& i : d.i) s += "\n  [" + plist(i.p) + "\n    [" + plist(i.d.p) + "]]";
        s += "]\n";
    }
    return s;
}
static const char* VAL[] = {"od", "rd", "1", "2", "10", "0001", "a-b", "xy", "oper", "OPER"};
static std::string val() { return VAL[vh::rnd(10)]; }
static P pred(const std::string& kw, bool plain) {
    P p;
    p.kw = kw;
    p.kind = plain ? 'a' : "aaavvixxoohh"[vh::rnd(12)];
    size_t n = p.kind == 'v' ? 1 : p.kind == 'x' ? 1 + vh::rnd(3) : p.kind == 'i' ? 2 + vh::rnd(3) : 0;
    while (p.vals.size() < n) { auto v = val(); if (std::find(p.vals.begin(), p.vals.end(), v) == p.vals.end()) p.vals.push_back(v); }
    if (p.optional() && (p.kind == 'h' || vh::rnd(2))) p.def = val();
    if (vh::rnd(5) == 0) p.type = vh::rnd(2) ? "First3" : "Ignore";
    return p;
}
static Ps preds(std::initializer_list<const char*> kws) {
    Ps r;
    for (auto k : kws) if (r.empty() || vh::rnd(4)) r.push_back(pred(k, vh::rnd(3) == 0));
    return r;
}
// the same keyword with different types on several levels
static Ref repeated() {
    Ref r;
    const char* T[] = {"", "First3", "Ignore", ""};
    auto ps = [&](size_t n) { Ps l; for (auto k : {"class", "step", "type", "date"}) if (l.size() < n && vh::rnd(2)) { P p; p.kw = k; p.type = T[vh::rnd(4)]; l.push_back(p); } if (l.empty()) { P p; p.kw = "param"; l.push_back(p); } return l; };
    for (auto k : {"class", "step", "type"}) if (vh::rnd(2)) r.types[k] = vh::rnd(2) ? "First3" : "Ignore";
    RDb d;
    d.p = ps(3);
    RIdx i;
    i.p = ps(3);
    i.d.p = ps(3);
    d.i.push_back(i);
    r.dbs.push_back(d);
    return r;
}
static Ref schema() {
    Ref r;
    if (vh::rnd(2)) r.types["expver"] = "First3";
    if (vh::rnd(3) == 0) r.types["step"] = "Ignore";
    for (size_t n = 1 + vh::rnd(3); n-- > 0;) {
        RDb d;
        d.p = preds({"class", "expver", "stream"});
        for (size_t m = 1 + vh::rnd(2); m-- > 0;) { RIdx i; i.p = preds({"date", "type"}); i.d.p = preds({"step", "param", "levelist"}); d.i.push_back(i); }
        r.dbs.push_back(d);
    }
    return r;
}
// the type of a keyword: own rule, enclosing rules, schema
struct Scope {
    const Ref& r;
    std::vector<const Ps*> chain;   // innermost last
    std::string type(const std::string& kw) const {
        for (auto i = chain.rbegin(); i != chain.rend(); ++i)
            for (auto& p : **i) if (p.kw == kw && (!p.type.empty() || p.kind == 'h')) return p.type.empty() ? "Ignore" : p.type;
        auto i = r.types.find(kw);
        return i == r.types.end() ? "Default" : i->second;
    }
    std::string canon(const std::string& kw, const std::string& v) const {
        auto t = type(kw);
        if (v.empty() || t == "Ignore") return "";
        if (t == "First3") return v.substr(0, 3);
        std::string s = v;
        for (auto& c : s) c = std::tolower(c);
        return s;
    }
};
static std::string show(const Key& k) { std::string s; for (auto& n : k.names()) s += n + "=" + (k.find(n).second ? k.get(n) : "?") + ","; return s; }
static std::string show(const Pairs& p) { std::string s; for (auto& x : p) s += x.first + "=" + x.second + ","; return s; }
static std::string show(const std::vector<Key>& v) { std::string s; for (auto& k : v) s += show(k) + ";"; return s; }
static std::string show(const std::vector<Pairs>& v) { std::string s; for (auto& k : v) s += show(k) + ";"; return s; }

static std::optional<Pairs> find(const Scope& s, const Ps& ps, const Key& f, bool& thrown) {
    thrown = false;
    if (f.size() < ps.size()) return {};
    Pairs r;
    for (auto& p : ps) {
        if (!p.matchKey(f)) return {};
        auto v = p.value(f);
        if (!v) { thrown = true; return {}; }
        r.emplace_back(p.kw, s.canon(p.kw, *v));
    }
    return r;
}
static std::vector<Pairs> product(const Scope& s, const std::vector<std::pair<std::string, Strs>>& nodes) {
    std::vector<Pairs> r;
    if (nodes.empty()) return r;
    r.emplace_back();
    for (auto& n : nodes) {
        std::vector<Pairs> t;
        for (auto& a : r) for (auto& v : n.second) { auto b = a; b.emplace_back(n.first, s.canon(n.first, v)); t.push_back(b); }
        r = t;
    }
    std::vector<Pairs> u;
    for (auto& a : r) if (std::find(u.begin(), u.end(), a) == u.end()) u.push_back(a);
    return u;
}
using Req = std::map<std::string, Strs>;
static std::string show(const Req& r) { std::string s; for (auto& p : r) { s += p.first + "="; for (auto& v : p.second) s += v + "/"; s += " "; } return s; }
static std::vector<Pairs> keysRead(const Scope& s, const Ps& ps, const Req& q) {
    std::vector<std::pair<std::string, Strs>> nodes;
    for (auto& p : ps) {
        Strs in, out;
        auto i = q.find(p.kw);
        if (i == q.end() || i->second.empty()) { if (!p.optional()) return {}; in = p.optionalValues(); }
        else if (s.type(p.kw) == "First3") for (auto& v : i->second) in.push_back(v.substr(0, 3));
        else if (s.type(p.kw) != "Ignore") in = i->second;
        for (auto& v : in) if (p.match(v)) out.push_back(v);
        if (out.empty()) { if (!p.optional()) return {}; out.push_back(""); }
        nodes.emplace_back(p.kw, out);
    }
    return product(s, nodes);
}
static std::vector<Pairs> keysPlain(const Scope& s, const Ps& ps, const Req& q, const char* missing) {
    std::vector<std::pair<std::string, Strs>> nodes;
    for (auto& p : ps) {
        Strs in, out;
        auto i = q.find(p.kw);
        if (missing && i == q.end()) out.push_back(missing);
        else {
            if (p.kind == 'h') in = {p.def};
            else if (i != q.end()) in = i->second;
            else if (p.optional()) in = {p.def};
            for (auto& v : in) if (p.match(v)) out.push_back(v);
            if (out.empty()) return {};
        }
        nodes.emplace_back(p.kw, out);
    }
    return product(s, nodes);
}
static std::string joinv(const Pairs& p) { std::string s; for (size_t i = 0; i < p.size(); ++i) s += (i ? ":" : "") + p[i].second; return s; }

static Key field() {
    Key k;
    for (auto kw : {"class", "expver", "stream", "date", "type", "step", "param", "levelist", "extra"}) if (vh::rnd(12)) k.push(kw, vh::rnd(20) ? val() : std::string());
    return k;
}
static Req request() {
    Req q;
    for (auto kw : {"class", "expver", "stream", "date", "type", "step", "param", "levelist"})
        if (vh::rnd(8)) for (size_t n = 1 + vh::rnd(3); n-- > 0;) { auto v = val(); auto& l = q[kw]; if (std::find(l.begin(), l.end(), v) == l.end()) l.push_back(v); }
    return q;
}
static bool decide(const char* what, const std::string& k, int salt) { return (std::hash<std::string>()(what + k) + salt) % 5 != 0; }

struct Reader : public ReadVisitor {
    const Schema& s;
    std::string log;
    int salt;
    Reader(const Schema& s, int salt) : s(s), salt(salt) {}
    bool selectDatabase(const Key& k, const Key& f) override { log += "db " + show(k) + " full " + show(f) + "\n"; return decide("db", show(k), salt); }
    bool selectIndex(const Key& k) override { log += "index " + show(k) + "\n"; return decide("index", show(k), salt); }
    bool selectDatum(const Key& k, const Key& f) override { log += "datum " + show(k) + " full " + show(f) + "\n"; return true; }
    void deselectDatabase() override { log += "deselect\n"; }
    const Schema& databaseSchema() const override { return s; }
    void print(std::ostream& o) const override { o << "reader"; }
};
struct Prev { std::vector<Key> prev; };
struct Writer : public Prev, public WriteVisitor {
    const Schema& s;
    std::string log;
    int salt;
    Writer(const Schema& s, int salt) : WriteVisitor(prev), s(s), salt(salt) {}
    bool selectDatabase(const Key& k, const Key& f) override { log += "db " + show(k) + " full " + show(f) + "\n"; return decide("db", show(k), salt); }
    bool selectIndex(const Key& k) override { log += "index " + show(k) + "\n"; return decide("index", show(k), salt); }
    bool createIndex(const Key& k, size_t n) override { log += "create " + show(k) + " of " + std::to_string(n) + "\n"; return decide("create", show(k), salt); }
    bool selectDatum(const Key& k, const Key& f) override { log += "datum " + show(k) + " full " + show(f) + "\n"; return decide("datum", show(k), salt); }
    const Schema& databaseSchema() const override { return s; }
    void print(std::ostream& o) const override { o << "writer"; }
};
static Key tokey(const Pairs& p) { Key k; for (auto& x : p) k.push(x.first, x.second); return k; }
static Pairs cat(Pairs a, const Pairs& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static bool all(const Ps& ps, const Key& k) { for (auto& p : ps) if (!p.matchKey(k)) return false; return true; }
static const RDb* matching(const Ref& r, const Key& k) { for (auto& d : r.dbs) if (all(d.p, k)) return &d; return nullptr; }

static std::string refWrite(const Ref& r, const Key& f, int salt, bool& thrown) {
    std::string log;
    thrown = false;
    for (auto& d : r.dbs) {
        auto k = find(Scope{r, {&d.p}}, d.p, f, thrown);
        if (thrown) return log;
        if (!k) continue;
        log += "db " + show(*k) + " full " + show(*k) + "\n";
        if (!decide("db", show(*k), salt)) continue;
        const RDb* m = matching(r, tokey(*k));
        if (!m) { thrown = true; return log; }
        for (auto& i : m->i) {
            auto ik = find(Scope{r, {&m->p, &i.p}}, i.p, f, thrown);
            if (thrown) return log;
            if (!ik) continue;
            log += "index " + show(*ik) + "\n";
            if (!decide("index", show(*ik), salt)) {
                log += "create " + show(*ik) + " of " + std::to_string(i.d.p.size()) + "\n";
                if (!decide("create", show(*ik), salt)) continue;
            }
            auto dk = find(Scope{r, {&m->p, &i.p, &i.d.p}}, i.d.p, f, thrown);
            if (thrown) return log;
            if (!dk) continue;
            log += "datum " + show(*dk) + " full " + show(cat(cat(*k, *ik), *dk)) + "\n";
            if (decide("datum", show(*dk), salt)) return log;
        }
    }
    return log;
}
static std::string refRead(const Ref& r, const Req& q, int salt, bool& thrown) {
    std::string log;
    thrown = false;
    for (auto& d : r.dbs)
        for (auto& k : keysRead(Scope{r, {&d.p}}, d.p, q)) {
            log += "db " + show(k) + " full " + show(k) + "\n";
            if (!decide("db", show(k), salt)) continue;
            const RDb* m = matching(r, tokey(k));
            if (!m) { thrown = true; return log; }
            for (auto& i : m->i)
                for (auto& ik : keysRead(Scope{r, {&m->p, &i.p}}, i.p, q)) {
                    log += "index " + show(ik) + "\n";
                    if (!decide("index", show(ik), salt)) continue;
                    for (auto& dk : keysRead(Scope{r, {&m->p, &i.p, &i.d.p}}, i.d.p, q)) log += "datum " + show(dk) + " full " + show(cat(cat(k, ik), dk)) + "\n";
                }
            log += "deselect\n";
        }
    return log;
}

static void matchers(const Ref& r, const Schema& s, const char* id, const std::string& txt) {
    CHECK(id, s.rules_.size() == r.dbs.size());
    auto one = [&](const Rule& rule, const Ps& ps, const Scope& sc) {
        CHECK(id, rule.predicates_.size() == ps.size());
        if (rule.predicates_.size() != ps.size()) return;
        for (size_t i = 0; i < ps.size(); ++i) {
            auto& p = *rule.predicates_[i];
            vh::kase("%s: predicate %s of schema %s", id, ps[i].text().c_str(), txt.c_str());
            CHECK(id, p.keyword() == ps[i].kw && p.optional() == ps[i].optional());
            for (auto v : VAL) CHECK(id, p.match(std::string(v)) == ps[i].match(v), << v);
            for (int j = 0; j < 6; ++j) { Key f = field(); CHECK(id, p.match(f) == ps[i].matchKey(f), << show(f)); }
            if (ps[i].optional()) CHECK(id, p.defaultValue() == ps[i].def && p.optionalValues() == ps[i].optionalValues());
            auto& t = rule.registry().lookupType(ps[i].kw);
            for (auto v : {"1", "oper", "OPER"}) CHECK(id, t.toKey(v) == sc.canon(ps[i].kw, v), << v << " gives " << t.toKey(v));
        }
    };
    for (size_t d = 0; d < std::min(s.rules_.size(), r.dbs.size()); ++d) {
        one(*s.rules_[d], r.dbs[d].p, Scope{r, {&r.dbs[d].p}});
        CHECK(id, s.rules_[d]->rules().size() == r.dbs[d].i.size());
        for (size_t i = 0; i < std::min(s.rules_[d]->rules().size(), r.dbs[d].i.size()); ++i) {
            auto& x = r.dbs[d].i[i];
            one(*s.rules_[d]->rules()[i], x.p, Scope{r, {&r.dbs[d].p, &x.p}});
            one(s.rules_[d]->rules()[i]->rule(), x.d.p, Scope{r, {&r.dbs[d].p, &x.p, &x.d.p}});
            // types of all keywords as seen from the innermost rule
            const Scope sc{r, {&r.dbs[d].p, &x.p, &x.d.p}};
            for (auto kw : {"class", "expver", "stream", "date", "type", "step", "param", "levelist", "extra"}) {
                vh::kase("%s: type of %s in rule %zu.%zu of %s", id, kw, d, i, txt.c_str());
                auto& t = s.rules_[d]->rules()[i]->rule().registry().lookupType(kw);
                for (auto v : {"1", "OPER"}) CHECK(id, t.toKey(v) == sc.canon(kw, v), << v << " gives " << t.toKey(v));
            }
            CHECK(id, &s.rules_[d]->rules()[i]->rule().topRule() == s.rules_[d].get() && s.rules_[d]->isTopRule());
        }
    }
}
static void texts() {
    for (int run = 0; run < (vh::thorough ? 4000 : 500); ++run) {
        Ref r = run % 4 ? schema() : repeated();
        std::string t = text(r);
        vh::kase("parse %s", t.c_str());
        std::istringstream in(t);
        Schema s(in);
        matchers(r, s, "parsed", t);
        std::ostringstream d;
        s.dump(d);
        std::istringstream in2(d.str());
        vh::kase("dump of %s", t.c_str());
        Schema s2(in2);
        matchers(r, s2, "dumped", t);
        eckit::Buffer b(4096);
        eckit::ResizableMemoryStream o(b);
        s.encode(o);
        eckit::MemoryStream i(b);
        vh::kase("stream of %s", t.c_str());
        Schema s3(i);
        matchers(r, s3, "streamed", t);
        std::ostringstream d3;
        s3.dump(d3);
        CHECK("same-dump", d3.str() == d.str());
        // damaged text is refused, never half read
        std::string bad = t.substr(0, t.rfind(']'));
        vh::kase("text without its last bracket %s", bad.c_str());
        CHECK("damaged", vh::throws([&] { std::istringstream x(bad); Schema y(x); }));
        bad = t + "]";
        vh::kase("text with an extra bracket %s", bad.c_str());
        CHECK("damaged", vh::throws([&] { std::istringstream x(bad); Schema y(x); }));
    }
}

static void rule(const Rule& rule, const Ps& ps, const Scope& sc, const std::string& t) {
    for (int j = 0; j < 6; ++j) {
        Key f = field();
        vh::kase("rule [%s] field %s", plist(ps).c_str(), show(f).c_str());
        bool th = false;
        auto want = find(sc, ps, f, th);
        if (th) CHECK("match-field-throws", vh::throws([&] { rule.findMatchingKey(f); }));
        else {
            std::optional<Key> got;
            CHECK("match-field-no-throw", !vh::throws([&] { got = rule.findMatchingKey(f); }));
            CHECK("match-field", got.has_value() == want.has_value() && (!want || show(*got) == show(*want)), << (got ? show(*got) : "none") << " want " << (want ? show(*want) : "none"));
        }
        CHECK("match", rule.match(f) == all(ps, f));
        // values in the order of the rule
        Strs vs;
        bool ok = true;
        Pairs w;
        for (auto& p : ps) { vs.push_back(vh::rnd(6) ? val() : ""); ok &= p.match(vs.back()); w.emplace_back(p.kw, sc.canon(p.kw, vs.back())); }
        std::string fp;
        for (size_t i = 0; i < vs.size(); ++i) fp += (i ? ":" : "") + vs[i];
        vh::kase("rule [%s] values %s", plist(ps).c_str(), fp.c_str());
        auto got = rule.findMatchingKey(vs);
        CHECK("match-values", got.has_value() == ok && (!ok || show(*got) == show(w)), << (got ? show(*got) : "none"));
        // fingerprint of a key and back: empty optional values are left out
        Pairs back;
        for (size_t i = 0; i < ps.size(); ++i) if (!(ps[i].kind == 'o' && vs[i].empty())) back.emplace_back(ps[i].kw, vs[i]);
        Key k;
        CHECK("make-key-throws", !vh::throws([&] { k = rule.makeKey(fp); }) , << fp);
        CHECK("make-key", show(k) == show(back), << show(k));
        CHECK("make-key-long", vh::throws([&] { rule.makeKey(fp + ":zz"); }));
        // placeholders
        Pairs m;
        bool mok = true;
        for (auto& p : ps) { auto [it, fd] = f.find(p.kw); if (fd) mok &= p.match(it->second); m.emplace_back(p.kw, fd ? it->second : "**"); }
        vh::kase("rule [%s] partial field %s", plist(ps).c_str(), show(f).c_str());
        auto pk = rule.findMatchingKey(f, "**");
        CHECK("match-partial", pk.has_value() == mok && (!mok || show(*pk) == show(m)));
        Req q = request();
        metkit::mars::MarsRequest mr("retrieve");
        for (auto& p : q) mr.values(p.first, p.second);
        vh::kase("rule [%s] request %s", plist(ps).c_str(), show(q).c_str());
        bool any = true;
        for (auto& p : ps) any &= p.kind == 'o' || p.kind == 'h' || q.count(p.kw);
        auto wk = keysPlain(sc, ps, q, "**");
        auto gk = rule.findMatchingKeys(mr, "**");
        CHECK("expand-partial", show(gk) == show(wk), << show(gk) << " want " << show(wk));
        if (any) {
            wk = keysPlain(sc, ps, q, nullptr);
            gk = rule.findMatchingKeys(mr);
            CHECK("expand", show(gk) == show(wk), << show(gk) << " want " << show(wk));
        }
    }
}
static void expansion() {
    for (int run = 0; run < (vh::thorough ? 3000 : 350); ++run) {
        Ref r = schema();
        std::string t = text(r);
        vh::kase("parse %s", t.c_str());
        std::istringstream in(t);
        Schema s(in);
        for (size_t d = 0; d < r.dbs.size(); ++d) {
            auto& D = r.dbs[d];
            rule(*s.rules_[d], D.p, Scope{r, {&D.p}}, t);
            for (size_t i = 0; i < D.i.size(); ++i) {
                rule(*s.rules_[d]->rules()[i], D.i[i].p, Scope{r, {&D.p, &D.i[i].p}}, t);
                rule(s.rules_[d]->rules()[i]->rule(), D.i[i].d.p, Scope{r, {&D.p, &D.i[i].p, &D.i[i].d.p}}, t);
            }
        }
        for (int j = 0; j < 10; ++j) {
            Key f = field();
            bool th;
            vh::kase("archive %s with schema %s", show(f).c_str(), t.c_str());
            std::string want = refWrite(r, f, j, th);
            Writer w(s, j);
            bool gt = vh::throws([&] { s.expand(f, w); });
            CHECK("archive-throws", gt == th);
            CHECK("archive", w.log == want, << w.log << " want " << want);
            const RDb* m = matching(r, f);
            bool mt = vh::throws([&] { auto& x = s.matchingRule(f); CHECK("db-rule", m && &x == s.rules_[m - &r.dbs[0]].get()); });
            CHECK("db-rule-throws", mt == !m);
            const RDatum* dm = nullptr;
            for (auto& D : r.dbs) if (!dm && all(D.p, f)) for (auto& I : D.i) if (!dm && all(I.p, f)) dm = &I.d;
            mt = vh::throws([&] { auto& x = s.matchingRule(f, f); bool eq = false; for (size_t a = 0; a < r.dbs.size(); ++a) for (size_t b = 0; b < r.dbs[a].i.size(); ++b) eq |= dm == &r.dbs[a].i[b].d && &x == &s.rules_[a]->rules()[b]->rule(); CHECK("datum-rule", eq); });
            CHECK("datum-rule-throws", mt == !dm);
            std::map<Key, const Rule*> res;
            std::map<std::string, size_t> wantm;
            s.matchDatabase(f, res, "**");
            for (size_t a = 0; a < r.dbs.size(); ++a) {
                Pairs p;
                bool ok = true;
                for (auto& x : r.dbs[a].p) { auto [it, fd] = f.find(x.kw); if (fd) ok &= x.match(it->second); p.emplace_back(x.kw, fd ? it->second : "**"); }
                Key kk = tokey(p);
                if (ok) { std::string sorted; for (auto& [k2, v2] : kk) sorted += k2 + "=" + v2 + ","; wantm[sorted] = a; }
            }
            std::map<std::string, size_t> gotm;
            for (auto& e : res) { std::string sorted; for (auto& [k2, v2] : e.first) sorted += k2 + "=" + v2 + ","; size_t a = 0; while (a < r.dbs.size() && s.rules_[a].get() != e.second) ++a; gotm[sorted] = a; }
            CHECK("match-databases", gotm == wantm);
            Req q = request();
            metkit::mars::MarsRequest mr("retrieve");
            for (auto& p : q) mr.values(p.first, p.second);
            vh::kase("retrieve %s with schema %s", show(q).c_str(), t.c_str());
            want = refRead(r, q, j, th);
            Reader rd(s, j);
            gt = vh::throws([&] { s.expand(mr, rd); });
            CHECK("retrieve-throws", gt == th);
            CHECK("retrieve", rd.log == want, << rd.log << " want " << want);
        }
    }
}
int main(int argc, char** argv) {
    eckit::Main::initialise(1, argv);
    return vh::run(argc, argv, [] { if (vh::prop == "C06") texts(); else expansion(); });
}
