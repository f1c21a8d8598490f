// handles over several fields read as their concatenation; listings: modes, compaction, streams
#include "vh.h"
#include <algorithm>
#include <map>
#include <queue>
#include "eckit/io/DataHandle.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/io/Buffer.h"
#include "eckit/runtime/Main.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
#include "metkit/mars/MarsRequest.h"
#include "metkit/mars/MarsExpansion.h"
#include "fdb5/api/helpers/ListIterator.h"
#include "fdb5/database/FieldLocation.h"
#include "fdb5/io/FieldHandle.h"
#include "fdb5/io/HandleGatherer.h"
#include <sys/wait.h>
using namespace fdb5;

// arrays carry a guard behind them, so that a buffer that is too small shows
static bool overrun = false;
void* operator new[](size_t n) {
    char* p = static_cast<char*>(malloc(n + 80));
    if (!p) throw std::bad_alloc();
    memcpy(p, &n, sizeof n);
    memset(p + 16 + n, 0x5a, 64);
    return p + 16;
}
void operator delete[](void* q) noexcept {
    if (!q) return;
    char* p = static_cast<char*>(q) - 16;
    size_t n;
    memcpy(&n, p, sizeof n);
    for (int i = 0; i < 64; ++i) overrun |= p[16 + n + i] != 0x5a;
    free(p);
}
void operator delete[](void* q, size_t) noexcept { operator delete[](q); }

struct Field { std::string bytes; bool seekable; long chunk; };
static int alive = 0;
static std::set<const void*> handles;

// in-memory field: reads at most `chunk` bytes at a time; checks the protocol (open, read, close)
struct FakeHandle : eckit::DataHandle {
    Field f; bool open = false; size_t pos = 0; int opened = 0;
    std::string merged;
    FakeHandle(const Field& x) : f(x) { ++alive; handles.insert(this); }
    ~FakeHandle() override { --alive; CHECK("handle-deleted-twice", handles.erase(this) == 1); }
    void print(std::ostream& s) const override { s << "fake"; }
    eckit::Length openForRead() override { CHECK("handle-opened-twice", !open); open = true; pos = 0; ++opened; return f.bytes.size(); }
    long read(void* b, long n) override {
        CHECK("read-of-closed-handle", open);
        long m = std::min<long>({n, f.chunk, long(f.bytes.size() - pos)});
        ::memcpy(b, f.bytes.data() + pos, m);
        pos += m;
        return m;
    }
    void close() override { open = false; }
    void rewind() override { pos = 0; }
    eckit::Length size() override { return f.bytes.size(); }
    eckit::Length estimate() override { return f.bytes.size(); }
    bool canSeek() const override { return f.seekable; }
    eckit::Offset position() override { CHECK("position-of-closed-handle", open); return pos; }
    eckit::Offset seek(const eckit::Offset& o) override { CHECK("seek-of-closed-handle", open && f.seekable); pos = (long long)o; return o; }
    bool compress(bool) override { return false; }
};
struct FakeLocation : FieldLocation {
    Field f;
    FakeLocation(const Field& x, size_t off) : FieldLocation(eckit::URI("file", eckit::PathName("/x/y")), off, x.bytes.size(), Key()), f(x) {}
    eckit::DataHandle* dataHandle() const override { return new FakeHandle(f); }
    std::shared_ptr<const FieldLocation> make_shared() const override { return std::make_shared<FakeLocation>(f, offset_); }
    void visit(FieldLocationVisitor& v) const override { v(*this); }
    const eckit::ReanimatorBase& reanimator() const override { throw eckit::NotImplemented(Here()); }
};
struct VecIter : APIIteratorBase<ListElement> {
    std::vector<ListElement> v; size_t i = 0;
    VecIter(std::vector<ListElement> x) : v(std::move(x)) {}
    bool next(ListElement& e) override { if (i == v.size()) return false; e = v[i++]; return true; }
};
static APIIterator<ListElement> iter(std::vector<ListElement> v) { return APIIterator<ListElement>(new VecIter(std::move(v))); }
static Key mk(std::initializer_list<std::pair<const char*, std::string>> l) { Key k; for (auto& p : l) k.set(p.first, p.second); return k; }

static void fieldHandles(bool dedup) {
    int N = (vh::thorough ? 60000 : 6000) / (dedup ? 3 : 1);
    for (int c = 0; c < N; ++c) {
        size_t n = vh::rnd(6);
        std::vector<ListElement> els;
        std::vector<Field> fs;
        std::string all, desc;
        int kind = vh::rnd(3);
        std::vector<size_t> at;
        std::vector<time_t> tm;
        for (size_t i = 0; i < n; ++i) {
            Field f;
            f.seekable = kind == 0 || (kind == 1 && vh::rnd(2));
            f.chunk = vh::rnd(2) ? 1000 : 1 + vh::rnd(4);
            size_t len = vh::rnd(12) ? 1 + vh::rnd(9) : 0;
            for (size_t j = 0; j < len; ++j) f.bytes += char('a' + (i * 7 + j) % 26);
            desc += (f.seekable ? "s" : "n") + std::to_string(len) + "/" + std::to_string(f.chunk) + " ";
            all += f.bytes;
            size_t step = dedup ? vh::rnd(4) : i;
            time_t t = dedup ? vh::rnd(4) : 0;
            els.emplace_back(mk({{"a", "1"}}), mk({{"b", "1"}}), mk({{"step", std::to_string(step)}}), std::make_shared<FakeLocation>(f, i), t);
            if (dedup) {
                desc += "#" + std::to_string(step) + "@" + std::to_string(t) + " ";
                size_t o = 0;
                while (o < i && at[o] != step) ++o;
                if (o == i || tm[o] < t) { if (o < i) at[o] = 99; at.push_back(step); tm.push_back(t); }
                else { at.push_back(99); tm.push_back(0); }
            }
            fs.push_back(f);
        }
        if (dedup) {
            // one version of each field is left, the latest; the order is that of the hypercube: found by reading once
            std::vector<Field> left;
            for (size_t i = 0; i < n; ++i) if (at[i] != 99) left.push_back(fs[i]);
            std::vector<size_t> perm(left.size());
            for (size_t i = 0; i < perm.size(); ++i) perm[i] = i;
            ListIterator li(iter(els));
            vh::kase("deduplicating FieldHandle over %s", desc.c_str());
            std::string got;
            {
                FieldHandle h(li);
                h.openForRead();
                char b[7];
                long r;
                while ((r = h.read(b, 7)) > 0) got.append(b, r);
                h.close();
            }
            bool found = false;
            do {
                std::string x;
                for (size_t i : perm) x += left[i].bytes;
                found = x == got;
            } while (!found && std::next_permutation(perm.begin(), perm.end()));
            CHECK("deduplicated-fields", found, << "read " << got);
            CHECK("handles-released", alive == 0 && handles.empty(), << alive);
            if (!found) { alive = 0; handles.clear(); continue; }
            std::vector<Field> o;
            for (size_t i : perm) o.push_back(left[i]);
            fs = o;
            all = got;
        }
        bool seekable = true;
        for (auto& f : fs) seekable &= f.seekable;
        std::string ops;
        vh::kase("FieldHandle over %s", desc.c_str());
        {
            ListIterator li(iter(els));
            FieldHandle h(li);
            CHECK("size", (long long)h.size() == (long long)all.size() && (long long)h.estimate() == (long long)all.size());
            size_t pos = 0;
            bool open = false, dead = false;
            auto cur = [&] { size_t a = 0, i = 0; for (; i < fs.size() && pos >= a + fs[i].bytes.size(); ++i) a += fs[i].bytes.size(); return a; };
            for (int k = 0, m = 1 + vh::rnd(14); k < m && !dead; ++k) {
                if (!open) {
                    ops += "open ";
                    vh::kase("FieldHandle over %s: %s", desc.c_str(), ops.c_str());
                    long long t = -1;
                    bool th = vh::throws([&] { t = h.openForRead(); });
                    CHECK("open", !th && t == (long long)all.size());
                    if (th) break;
                    open = true;
                    pos = 0;
                    continue;
                }
                int op = vh::rnd(10);
                if (op < 5) {
                    long want = vh::rnd(4) ? 1 + vh::rnd(12) : 100;
                    ops += "read" + std::to_string(want) + " ";
                    vh::kase("FieldHandle over %s: %s", desc.c_str(), ops.c_str());
                    std::string b(want + 4, '#');
                    long r = h.read(b.data(), want);
                    long exp = std::min<long>(want, all.size() - pos);
                    CHECK("read-count", r == exp, << "read " << r << " of " << exp);
                    if (r != exp) { dead = true; break; }
                    CHECK("read-bytes", b.substr(0, exp) == all.substr(pos, exp), << b << " instead of " << all.substr(pos, exp));
                    CHECK("read-overrun", b.substr(want) == "####");
                    pos += exp;
                }
                else if (op < 7) {
                    size_t o = vh::rnd(all.size() + 1);
                    bool back = o < cur();
                    // with fields that are not seekable the current one is the one that holds the position: at its end either answer is sound
                    bool amb = !seekable && pos > 0 && pos == cur();
                    ops += "seek" + std::to_string(o) + " ";
                    vh::kase("FieldHandle over %s: %s", desc.c_str(), ops.c_str());
                    long long got = -1;
                    bool th = vh::throws([&] { got = h.seek(o); });
                    if (!seekable && back && !th && amb) { pos = o; continue; }
                    if (!seekable && back) { CHECK("seek-backward-refused", th); dead = true; }
                    else {
                        CHECK("seek", !th && got == (long long)o);
                        if (th) dead = true;
                        pos = o;
                    }
                }
                else if (op == 7) {
                    ops += "rewind ";
                    vh::kase("FieldHandle over %s: %s", desc.c_str(), ops.c_str());
                    bool th = vh::throws([&] { h.rewind(); });
                    if (seekable) CHECK("rewind", !th);
                    if (th) { if (seekable) dead = true; CHECK("rewind-refused", !seekable); }
                    else pos = 0;
                    if (th) dead = true;
                }
                else if (op == 8) {
                    ops += "close ";
                    vh::kase("FieldHandle over %s: %s", desc.c_str(), ops.c_str());
                    h.close();
                    open = false;
                }
                if (open && !dead) CHECK("position", (long long)h.position() == (long long)pos, << (long long)h.position() << " instead of " << pos);
            }
            if (open && vh::rnd(2)) { ops += "close"; h.close(); }
            vh::kase("FieldHandle over %s: %s ~", desc.c_str(), ops.c_str());
        }
        CHECK("handles-released", alive == 0 && handles.empty(), << alive);
        CHECK("buffer-overrun", !overrun);
        overrun = false;
        if (alive) { alive = 0; handles.clear(); }
    }
}
// the deduplicating form is chosen once per process
static void deduplicating() {
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        setenv("FDB_DEDUPLICATE_FIELDS", "1", 1);
        alarm(300);
        fieldHandles(true);
        fflush(stdout);
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    CHECK("deduplicating-crash", st == 0, << st);
}

// HandleGatherer: the bytes of all parts, each once; in order when not sorted
struct PartHandle : eckit::DataHandle {
    std::vector<int> parts; size_t i = 0;
    PartHandle(int p) { parts.push_back(p); ++alive; handles.insert(this); }
    ~PartHandle() override { --alive; CHECK("handle-deleted-twice", handles.erase(this) == 1); }
    void print(std::ostream& s) const override { s << "part"; }
    eckit::Length openForRead() override { i = 0; return parts.size(); }
    long read(void* b, long n) override { long m = 0; while (m < n && i < parts.size()) static_cast<char*>(b)[m++] = char('0' + parts[i++]); return m; }
    void close() override {}
    bool merge(eckit::DataHandle* o) override {
        auto p = dynamic_cast<PartHandle*>(o);
        if (!p || p->parts.front() != parts.back() + 1) return false;
        parts.insert(parts.end(), p->parts.begin(), p->parts.end());
        return true;
    }
    bool compress(bool) override { return false; }
    eckit::Length estimate() override { return parts.size(); }
    eckit::Length size() override { return parts.size(); }
};
static void gatherer() {
    for (int c = 0; c < (vh::thorough ? 20000 : 1500); ++c) {
        bool sorted = vh::rnd(2);
        size_t n = vh::rnd(8);
        std::string want, got;
        std::vector<int> v;
        for (size_t i = 0; i < n; ++i) v.push_back(vh::rnd(3) && i ? (v.back() + 1) % 40 : vh::rnd(40));
        for (int x : v) want += char('0' + x);
        vh::kase("gather%s %s", sorted ? " sorted" : "", want.c_str());
        {
            HandleGatherer g(sorted);
            for (int x : v) g.add(new PartHandle(x));
            CHECK("gather-count", g.count() == n);
            if (vh::rnd(10)) {
                std::unique_ptr<eckit::DataHandle> h(g.dataHandle());
                CHECK("gather-size", (long long)h->openForRead() == (long long)n);
                char b[64];
                long r;
                while ((r = h->read(b, 5)) > 0) got.append(b, r);
                h->close();
                if (sorted) {
                    auto a = want, z = got;
                    std::sort(a.begin(), a.end());
                    std::sort(z.begin(), z.end());
                    CHECK("gather-parts", a == z, << got);
                }
                else CHECK("gather-order", want == got, << got);
            }
        }
        CHECK("handles-released", alive == 0);
        if (alive) { alive = 0; handles.clear(); }
    }
}

// ---------------------------------------------------------------------------------------------- listings (C19)
static std::string id(const Key& k) { std::string s; for (auto& p : k) s += p.first + "=" + p.second + ","; return s; }
static std::string id(const ListElement& e) { return id(e.keys()[0]) + "|" + id(e.keys()[1]) + "|" + id(e.keys()[2]) + "@" + std::to_string(e.timestamp()); }
static std::vector<ListElement> relems(size_t n) {
    std::vector<ListElement> r;
    static const char* P[] = {"129", "130", "131"};
    for (size_t i = 0; i < n; ++i) {
        Field f;
        f.bytes = std::string(1 + vh::rnd(20), 'x');
        Key db = mk({{"class", vh::rnd(2) ? "od" : "rd"}, {"expver", vh::rnd(2) ? "0001" : "0002"}});
        Key ix = mk({{"type", vh::rnd(2) ? "an" : "fc"}, {"levtype", vh::rnd(2) ? "sfc" : "pl"}});
        Key da = mk({{"step", std::to_string(vh::rnd(3))}, {"param", P[vh::rnd(3)]}});
        if (ix.get("levtype") == "pl") da.set("levelist", vh::rnd(2) ? "500" : "850");
        else if (vh::rnd(3) == 0) da.set("levelist", "");
        r.emplace_back(db, ix, da, std::make_shared<FakeLocation>(f, i), (time_t)i);
    }
    return r;
}
static std::string kid(const ListElement& e) { return e.keys()[0].valuesToString() + "|" + e.keys()[1].valuesToString() + "|" + e.keys()[2].valuesToString(); }
static void listings() {
    for (int c = 0; c < (vh::thorough ? 20000 : 2000); ++c) {
        auto els = relems(vh::rnd(14));
        // spread over several sources, in order
        size_t parts = 1 + vh::rnd(3);
        auto src = [&] {
            std::queue<APIIterator<ListElement>> q;
            size_t at = 0;
            for (size_t p = 0; p < parts; ++p) {
                size_t to = p + 1 == parts ? els.size() : std::min(els.size(), at + els.size() / parts + (p % 2));
                q.push(iter(std::vector<ListElement>(els.begin() + at, els.begin() + to)));
                at = to;
            }
            return APIIterator<ListElement>(new ListAggregateIterator(std::move(q)));
        };
        std::string d;
        for (auto& e : els) d += kid(e) + " ";
        vh::kase("list %s in %zu sources", d.c_str(), parts);
        std::set<std::string> seen;
        std::vector<std::string> full, first, again;
        for (auto& e : els) {
            full.push_back(id(e));
            (seen.insert(kid(e)).second ? first : again).push_back(id(e));
        }
        auto run = [&](ListMode m) {
            std::vector<std::string> r;
            ListIterator li(src(), m);
            ListElement e;
            while (li.next(e)) r.push_back(id(e));
            CHECK("list-end", !li.next(e));
            return r;
        };
        CHECK("list-full", run(ListMode::Full) == full);
        CHECK("list-deduplicate", run(ListMode::Deduplicate) == first);
        CHECK("list-only-duplicates", run(ListMode::OnlyDuplicates) == again);
        // the compact form counts and covers exactly the distinct fields
        {
            ListIterator li(src(), ListMode::Deduplicate);
            std::ostringstream o;
            auto [n, len] = li.dumpCompact(o);
            long long want = 0;
            std::set<std::string> w, got;
            std::set<std::string> sn;
            for (auto& e : els) if (sn.insert(kid(e)).second) {
                want += (long long)e.length();
                std::map<std::string, std::string> m;
                for (auto& k : e.keys()) for (auto& p : k) if (!p.second.empty()) m[p.first] = p.second;
                std::string s;
                for (auto& p : m) s += p.first + "=" + p.second + ",";
                w.insert(s);
            }
            CHECK("compact-count", n == sn.size() && (long long)len == want, << n << " " << (long long)len << " instead of " << sn.size() << " " << want);
            std::istringstream in(o.str());
            std::string line;
            size_t total = 0;
            while (std::getline(in, line)) {
                if (line.empty()) continue;
                std::vector<std::pair<std::string, std::vector<std::string>>> kv;
                std::string tok;
                std::istringstream li2(line);
                while (std::getline(li2, tok, ',')) {
                    tok.erase(std::remove_if(tok.begin(), tok.end(), [](char x) { return x == ' ' || x == '\t' || x == '{' || x == '}'; }), tok.end());
                    auto q = tok.find('=');
                    if (q == std::string::npos) continue;
                    std::vector<std::string> vs;
                    std::istringstream vi(tok.substr(q + 1));
                    std::string x;
                    while (std::getline(vi, x, '/')) vs.push_back(x);
                    kv.emplace_back(tok.substr(0, q), vs);
                }
                std::vector<std::map<std::string, std::string>> prod{{}};
                for (auto& p : kv) {
                    if (p.second.empty()) continue;
                    std::vector<std::map<std::string, std::string>> nx;
                    for (auto& m : prod) for (auto& x : p.second) { auto y = m; if (!x.empty()) y[p.first] = x; nx.push_back(y); }
                    prod.swap(nx);
                }
                for (auto& m : prod) { std::string s; for (auto& p : m) s += p.first + "=" + p.second + ","; got.insert(s); ++total; }
            }
            bool emptyv = false;
            for (auto& e : els) for (auto& p : e.keys()[2]) emptyv |= p.second.empty();
            if (!emptyv) {
                CHECK("compact-covers", got == w, << o.str());
                CHECK("compact-once", total == sn.size(), << total << " " << o.str());
            }
        }
        // of a listing that holds fields more than once too, every field is counted once, with the length of one of its versions
        {
            ListIterator li(src(), ListMode::Full);
            std::ostringstream o;
            auto [n, len] = li.dumpCompact(o);
            std::map<std::string, std::pair<long long, long long>> mm;
            for (auto& e : els) { long long l = e.length(); auto [i, ins] = mm.emplace(kid(e), std::make_pair(l, l)); i->second.first = std::min(i->second.first, l); i->second.second = std::max(i->second.second, l); }
            long long lo = 0, hi = 0;
            for (auto& p : mm) { lo += p.second.first; hi += p.second.second; }
            CHECK("compact-count-full", n == mm.size() && (long long)len >= lo && (long long)len <= hi, << n << " " << (long long)len << " instead of " << mm.size() << " " << lo << ".." << hi);
        }
        // the combined key holds every keyword of the three levels
        for (auto& e : els) {
            Key k = e.combinedKey();
            size_t n = 0;
            for (auto& p : e.keys()) for (auto& q : p) { ++n; auto [i, f] = k.find(q.first); CHECK("combined-key", f && i->second == q.second); }
            CHECK("combined-key", k.size() == n);
            CHECK("element-length", e.length() == e.location().length() && e.offset() == e.location().offset());
        }
        // stored versions: the later one replaces
        ListElementDeduplicator dd;
        for (auto& a : els) for (auto& b : els) CHECK("deduplicator", dd.toReplace(a, b) == (a.timestamp() < b.timestamp()));
    }
}
int main(int argc, char** argv) {
    eckit::Main::initialise(argc, argv);
    return vh::run(argc, argv, [] {
        if (vh::prop == "C19") listings();
        else { { deduplicating(); fieldHandles(false); } gatherer(); }
    });
}
