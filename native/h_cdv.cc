// chunked data view: axis index maps, boxes, chunk grid, request selection, extraction
#include "vh.h"
#include <limits>
#include <cmath>
#include <map>
#include <eccodes.h>
#include "chunked_data_view/Axis.h"
#include "chunked_data_view/AxisDefinition.h"
#include "chunked_data_view/ViewPart.h"
#include "chunked_data_view/ChunkedDataViewImpl.h"
#include "chunked_data_view/GribExtractor.h"
#include "chunked_data_view/RequestManipulation.h"
#include "chunked_data_view/mapping/AxisMapper.h"
#include "chunked_data_view/mapping/IndexMapper.h"
#include "chunked_data_view/exception/BoundingBoxException.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/runtime/Main.h"
using namespace chunked_data_view;
using V = std::vector<size_t>;
using metkit::mars::MarsRequest;

static std::string str(const V& v) { std::string s; for (auto x : v) s += std::to_string(x) + ","; return s; }
static const char* names[] = {"step", "param", "levelist", "number", "date", "time"};

// card: cardinalities; values are deliberately not in alphabetical order
static Axis mkaxis(const V& card, size_t base = 0) {
    std::vector<Parameter> ps;
    for (size_t i = 0; i < card.size(); ++i) {
        std::vector<std::string> vals;
        for (size_t k = 0; k < card[i]; ++k) vals.push_back(std::to_string((card[i] - k) * 7 % 101 + 100 * k));
        ps.emplace_back(names[base + i], vals);
    }
    return Axis(ps);
}
static V digits(size_t x, const V& card) {
    V d(card.size());
    for (size_t i = card.size(); i-- > 0;) { d[i] = x % card[i]; x /= card[i]; }
    return d;
}
static void setkey(fdb5::Key& k, const Axis& a, const V& d) {
    for (size_t i = 0; i < d.size(); ++i) k.set(a.parameters()[i].name(), a.parameters()[i].values()[d[i]]);
}
static std::vector<V> cards(size_t maxn, size_t maxc) {
    std::vector<V> out, cur{{}};
    for (size_t n = 1; n <= maxn; ++n) {
        std::vector<V> nxt;
        for (auto& c : cur) for (size_t k = 1; k <= maxc; ++k) { V d = c; d.push_back(k); nxt.push_back(d); }
        out.insert(out.end(), nxt.begin(), nxt.end());
        cur = nxt;
    }
    return out;
}
static size_t product(const V& v) { size_t p = 1; for (auto x : v) p *= x; return p; }

static void axis_maps() {
    auto all = cards(3, vh::thorough ? 6 : 4);
    for (auto& c : cards(5, vh::thorough ? 3 : 2)) if (c.size() > 3) all.push_back(c);
    for (V c : {V{2, 3, 2, 3}, V{3, 1, 4, 2}, V{1, 2, 3, 4, 2}, V{2, 2, 3, 1, 3}, V{4, 3, 2, 2, 2, 3}}) all.push_back(c);
    for (auto& c : all) {
        Axis a = mkaxis(c);
        vh::kase("axis card=%s", str(c).c_str());
        CHECK("axis-size", a.size() == product(c));
        for (size_t x = 0; x < a.size(); ++x) {
            vh::kase("axis card=%s index=%zu", str(c).c_str(), x);
            V d = index_mapping::to_axis_parameter_index(x, a);
            CHECK("to-index", d == digits(x, c), << str(d));
            if (d.size() != c.size()) continue;
            fdb5::Key k;
            k.set("other", "17");
            bool in = true;
            for (size_t i = 0; i < d.size(); ++i) in &= d[i] < c[i];
            CHECK("digit-range", in);
            if (!in) continue;
            setkey(k, a, digits(x, c));
            CHECK("index", a.index(k) == x, << a.index(k));
        }
        for (size_t x : {a.size(), a.size() + 1, a.size() * 2}) {
            vh::kase("axis card=%s index=%zu beyond", str(c).c_str(), x);
            CHECK("beyond", vh::throws([&] { index_mapping::to_axis_parameter_index(x, a); }));
        }
        fdb5::Key k;
        vh::kase("axis card=%s missing key", str(c).c_str());
        CHECK("missing", vh::throws([&] { a.index(k); }));
        setkey(k, a, digits(0, c));
        k.set(names[c.size() - 1], "nosuch");
        CHECK("unmatched", vh::throws([&] { a.index(k); }));
    }
    // axes whose size does not fit 31 / 32 bits
    for (V c : {V{70000, 70000}, V{50000, 2, 50000}, V{3, 65536, 65536}}) {
        Axis a = mkaxis({1});
        std::vector<Parameter> ps;
        for (size_t i = 0; i < c.size(); ++i) { std::vector<std::string> v; for (size_t k = 0; k < c[i]; ++k) v.push_back(std::to_string(k)); ps.emplace_back(names[i], v); }
        Axis b(ps);
        for (size_t x : {size_t(0), size_t(1), product(c) - 1, product(c) / 2, (size_t(1) << 31) + 5, (size_t(1) << 32) + 7}) {
            if (x >= product(c)) continue;
            vh::kase("large axis card=%s index=%zu", str(c).c_str(), x);
            CHECK("large-size", b.size() == product(c), << b.size());
            V d;
            if (vh::throws([&] { d = index_mapping::to_axis_parameter_index(x, b); })) { vh::fail("large-throws", ""); continue; }
            CHECK("large-digits", d == digits(x, c), << str(d));
            fdb5::Key k;
            setkey(k, b, digits(x, c));
            CHECK("large-index", b.index(k) == x, << b.index(k));
        }
    }
}

static void buffer_index() {
    for (int it = 0; it < (vh::thorough ? 200000 : 12000); ++it) {
        size_t n = 1 + vh::rnd(3);  // 1-3 axes of 1-2 parameters
        std::vector<Axis> axes;
        V ext, off, boff, bext;
        fdb5::Key key;
        V idx;
        bool bad = false;
        for (size_t i = 0; i < n; ++i) {
            V c;
            size_t np = 1 + vh::rnd(2);
            for (size_t k = 0; k < np; ++k) c.push_back(1 + vh::rnd(4));
            axes.push_back(mkaxis(c, 2 * i));
            size_t s = product(c), x = vh::rnd(s);
            setkey(key, axes[i], digits(x, c));
            idx.push_back(x);
            size_t o = vh::rnd(x + 1 + (vh::rnd(10) == 0)), bo = vh::rnd(4), be = 1 + vh::rnd(8);
            off.push_back(o); boff.push_back(bo); bext.push_back(be);
            if (o > x || bo >= be || x - o + bo >= be) bad = true;
        }
        vh::kase("buffer idx=%s off=%s boff=%s bext=%s", str(idx).c_str(), str(off).c_str(), str(boff).c_str(), str(bext).c_str());
        size_t r = 0, want = 0;
        for (size_t i = 0; i < n; ++i) want = want * bext[i] + (idx[i] - off[i] + boff[i]);
        bool t = vh::throws([&] { r = index_mapping::computeBufferIndex(axes, key, off, boff, bext); });
        CHECK("buffer-throws", t == bad, << "threw=" << t);
        if (!t && !bad) CHECK("buffer-index", r == want, << r << " want " << want);
        V shorter(off.begin(), off.end() - 1);
        CHECK("buffer-dims", vh::throws([&] { index_mapping::computeBufferIndex(axes, key, shorter, boff, bext); }));
    }
}

static void boxes() {
    for (int it = 0; it < (vh::thorough ? 400000 : 30000); ++it) {
        size_t n = 1 + vh::rnd(3);
        V l, u, l2, u2, s;
        bool ok = true;
        for (size_t i = 0; i < n; ++i) {
            l.push_back(vh::rnd(5)); u.push_back(vh::rnd(6)); if (l[i] > u[i] && vh::rnd(20)) std::swap(l[i], u[i]);
            l2.push_back(vh::rnd(5)); u2.push_back(l2[i] + vh::rnd(4)); s.push_back(vh::rnd(3));
            ok &= l[i] <= u[i];
        }
        vh::kase("box [%s]-[%s] [%s]-[%s] sub %s", str(l).c_str(), str(u).c_str(), str(l2).c_str(), str(u2).c_str(), str(s).c_str());
        CHECK("box-ctor", vh::throws([&] { BoundingBox(l, u); }) == !ok);
        if (!ok) continue;
        BoundingBox a(l, u), b(l2, u2);
        size_t e = 1; V ex;
        bool inter = true, cont = true, sub = true;
        V il, iu;
        for (size_t i = 0; i < n; ++i) {
            ex.push_back(u[i] - l[i] + 1); e *= ex.back();
            il.push_back(std::max(l[i], l2[i])); iu.push_back(std::min(u[i], u2[i]));
            inter &= il[i] <= iu[i]; cont &= l2[i] >= l[i] && u2[i] <= u[i]; sub &= l[i] >= s[i];
        }
        CHECK("extent", a.extent() == ex);
        CHECK("entries", a.entries() == e, << a.entries());
        CHECK("contains", a.contains(b) == cont);
        auto r = a.intersect(b);
        CHECK("intersect-some", r.has_value() == inter);
        if (r && inter) CHECK("intersect", r->lower() == il && r->upper() == iu);
        bool t = false; BoundingBox d;
        t = vh::throws([&] { d = a.subtract(s); });
        CHECK("subtract-throws", t == !sub);
        if (!t && sub) { V x = d.lower(), y = d.upper(); bool g = x.size() == n && y.size() == n; for (size_t i = 0; g && i < n; ++i) g = x[i] == l[i] - s[i] && y[i] == u[i] - s[i]; CHECK("subtract", g); }
        if (n > 1) { auto q = a.dropLastDimension(); CHECK("drop", q.lower() == V(l.begin(), l.end() - 1) && q.upper() == V(u.begin(), u.end() - 1)); }
    }
}

static bool validchunk(const V& card, size_t C) {
    size_t t = 1;
    for (size_t k = card.size(); k-- > 0;) { if (C % t == 0 && (C / t) >= 1 && card[k] % (C / t) == 0) return true; t *= card[k]; }
    return false;
}
static void chunks() {
    for (auto& c : cards(3, vh::thorough ? 6 : 4)) {
        Axis a = mkaxis(c);
        for (size_t C = 0; C <= a.size() * 2 + 2; ++C) {
            vh::kase("chunk size card=%s C=%zu", str(c).c_str(), C);
            bool r = false, t = vh::throws([&] { r = AxisMapper::chunkSizeCheck(a, C); });
            CHECK("chunk-zero", t == (C == 0));
            if (C) CHECK("chunk-valid", r == validchunk(c, C));
            AxisDefinition::FixedSizeChunking f{C};
            bool t2 = false; std::unique_ptr<AxisChunks> ch;
            t2 = vh::throws([&] { ch = std::make_unique<AxisChunks>(AxisMapper::mapAxisToChunks(a, f)); });
            CHECK("chunk-reject", t2 == !(C && validchunk(c, C)));
            if (ch) { size_t s = 0; for (auto e : ch->extensions()) s += e; CHECK("chunk-tile", s == a.size() && ch->size() == a.size() / C && ch->representativeExtent() == C && !ch->isExtensible()); }
        }
        auto w = AxisMapper::mapAxisToChunks(a, AxisDefinition::WholeAxisChunking{});
        CHECK("whole", w.size() == 1 && w.extensions()[0] == a.size() && w.isExtensible());
        auto s = AxisMapper::mapAxisToChunks(a, AxisDefinition::SingleValueChunking{});
        CHECK("single", s.size() == a.size() && s.representativeExtent() == 1 && !s.isExtensible());
    }
}

static MarsRequest mkreq(const std::vector<Axis>& axes) {
    MarsRequest r("retrieve");
    r.values("class", std::vector<std::string>{"od"});
    for (auto& a : axes) for (auto& p : a.parameters()) r.values(p.name(), p.values());
    return r;
}
// fields a request selects on an axis, as flat positions
static std::set<size_t> selected(const MarsRequest& r, const Axis& a) {
    std::set<size_t> out;
    V c; for (auto& p : a.parameters()) c.push_back(p.values().size());
    for (size_t x = 0; x < product(c); ++x) {
        V d = digits(x, c);
        bool in = true;
        for (size_t i = 0; i < c.size(); ++i) {
            auto vs = r.values(a.parameters()[i].name());
            in &= std::find(vs.begin(), vs.end(), a.parameters()[i].values()[d[i]]) != vs.end();
        }
        if (in) out.insert(x);
    }
    return out;
}
static void requests() {
    for (auto& c : cards(3, 3)) {
        Axis a = mkaxis(c);
        size_t n = a.size();
        for (size_t lo = 0; lo < n; ++lo) for (size_t hi = lo; hi < n; ++hi) {
            vh::kase("select card=%s [%zu,%zu]", str(c).c_str(), lo, hi);
            // is [lo,hi] a product of value sets?
            std::vector<std::set<size_t>> vs(c.size());
            for (size_t x = lo; x <= hi; ++x) { V d = digits(x, c); for (size_t i = 0; i < c.size(); ++i) vs[i].insert(d[i]); }
            size_t p = 1; for (auto& s : vs) p *= s.size();
            bool aligned = p == hi - lo + 1;
            std::vector<Axis> axes{a};
            MarsRequest req = mkreq(axes), out = req;
            bool t = vh::throws([&] { out = RequestManipulation::selectRequest(req, axes, BoundingBox(V{lo}, V{hi})); });
            CHECK("select-throws", t == !aligned);
            if (t || !aligned) continue;
            auto s = selected(out, a);
            bool eq = s.size() == hi - lo + 1 && *s.begin() == lo && *s.rbegin() == hi;
            CHECK("select", eq, << "selected " << s.size());
            CHECK("select-others", out.values("class") == req.values("class"));
            size_t cnt = 1; for (auto& q : a.parameters()) cnt *= out.values(q.name()).size();
            CHECK("select-no-duplicates", cnt == hi - lo + 1);
        }
    }
    for (int it = 0; it < 300; ++it) {
        std::vector<Axis> axes{mkaxis({1 + vh::rnd(4)}, 0), mkaxis({1 + vh::rnd(3), 1 + vh::rnd(3)}, 2)};
        V lo{vh::rnd(axes[0].size()), 0}, hi{0, 0};
        hi[0] = lo[0] + vh::rnd(axes[0].size() - lo[0]);
        size_t inner = axes[1].parameters()[1].values().size();
        lo[1] = inner * vh::rnd(axes[1].parameters()[0].values().size()); hi[1] = lo[1] + inner - 1;
        vh::kase("view part at [%s]-[%s]", str(lo).c_str(), str(hi).c_str());
        MarsRequest req = mkreq(axes);
        std::vector<std::pair<Axis, AxisChunks>> ac;
        for (auto& a : axes) ac.emplace_back(a, AxisChunks(a.size(), 1, true));
        ViewPart vp(req, DataLayout{4, 4}, ac, V{vh::rnd(9), vh::rnd(9)});
        auto out = vp.at(BoundingBox(lo, hi));
        for (int i = 0; i < 2; ++i) { auto s = selected(out, axes[i]); CHECK("part-at", s.size() == hi[i] - lo[i] + 1 && *s.begin() == lo[i] && *s.rbegin() == hi[i]); }
        V over = hi; over[0] = axes[0].size();
        CHECK("part-outside", vh::throws([&] { vp.at(BoundingBox(lo, over)); }));
        CHECK("part-box", vp.boundingBox().lower() == vp.offset() && vp.boundingBox().extent() == vp.extension());
    }
    // axis mapping
    vh::kase("map request: duplicate keyword / unmapped keyword");
    std::vector<Axis> axes{mkaxis({2, 3})};
    MarsRequest req = mkreq(axes);
    auto def = [](std::vector<std::string> k) { return AxisDefinition{k, AxisDefinition::WholeAxisChunking{}}; };
    CHECK("map-dup", vh::throws([&] { AxisMapper::mapRequestToAxis(req, {def({"step"}), def({"param", "step"})}); }));
    CHECK("map-unmapped", vh::throws([&] { AxisMapper::mapRequestToAxis(req, {def({"step"})}); }));
    auto m = AxisMapper::mapRequestToAxis(req, {def({"param"}), def({"step"})});
    CHECK("map-order", m.size() == 2 && m[0].first.size() == 3 && m[1].first.size() == 2 && m[0].first.parameters()[0].name() == "param");
    auto m2 = AxisMapper::mapRequestToAxis(req, {def({"param", "step"})});
    CHECK("map-combined", m2.size() == 1 && m2[0].first.size() == 6 && m2[0].first.parameters()[0].name() == "param" && m2[0].first.parameters()[0].values() == req.values("param"));
}

// ---------------------------------------------------------------------------------------------- whole view
struct GridFdb : FdbInterface {
    std::vector<Axis> axes;   // of one part
    std::map<std::string, std::vector<char>> grib;
    long missing = -1;        // field which has a missing point
    long absent = -1;         // field that is not in the archive
    bool shuffle = false;
    double base = 0;
    size_t nvals = 4;
    static std::string id(const fdb5::Key& k) { return k.valuesToString(); }
    std::vector<char> message(double v, bool miss) {
        codes_handle* h = codes_grib_handle_new_from_samples(nullptr, "GRIB2");
        codes_set_long(h, "Ni", 2); codes_set_long(h, "Nj", nvals / 2);
        codes_set_double(h, "iDirectionIncrementInDegrees", 1); codes_set_double(h, "jDirectionIncrementInDegrees", 1);
        codes_set_long(h, "bitsPerValue", 16);
        if (miss) codes_set_long(h, "bitmapPresent", 1);
        std::vector<double> vals(nvals);
        for (size_t i = 0; i < nvals; ++i) vals[i] = v * 8 + i;
        if (miss) vals[1] = 9999;
        codes_set_double_array(h, "values", vals.data(), vals.size());
        const void* b; size_t n; codes_get_message(h, &b, &n);
        std::vector<char> r((const char*)b, (const char*)b + n);
        codes_handle_delete(h);
        return r;
    }
    struct It : ListIteratorInterface {
        std::vector<std::pair<fdb5::Key, std::vector<char>>> items; size_t i = 0;
        std::optional<std::tuple<fdb5::Key, std::unique_ptr<eckit::DataHandle>>> next() override {
            if (i == items.size()) return std::nullopt;
            auto& x = items[i++];
            return std::make_tuple(x.first, std::unique_ptr<eckit::DataHandle>(new eckit::MemoryHandle(x.second.data(), x.second.size())));
        }
        ~It() override {}
    };
    std::vector<std::unique_ptr<std::vector<char>>> keep;
    std::unique_ptr<eckit::DataHandle> retrieve(const MarsRequest&) override {
        keep.push_back(std::make_unique<std::vector<char>>(message(1, false)));
        return std::unique_ptr<eckit::DataHandle>(new eckit::MemoryHandle(keep.back()->data(), keep.back()->size()));
    }
    std::unique_ptr<ListIteratorInterface> inspect(const MarsRequest& r) override {
        auto it = std::make_unique<It>();
        size_t total = 1;
        for (auto& a : axes) total *= a.size();
        for (size_t f = 0; f < total; ++f) {
            fdb5::Key k;
            size_t rem = f;
            bool in = true;
            for (size_t i = axes.size(); i-- > 0;) {
                V c; for (auto& p : axes[i].parameters()) c.push_back(p.values().size());
                V d = digits(rem % axes[i].size(), c);
                rem /= axes[i].size();
                setkey(k, axes[i], d);
            }
            for (auto& a : axes) for (auto& p : a.parameters()) { auto vs = r.values(p.name()); in &= std::find(vs.begin(), vs.end(), k.get(p.name())) != vs.end(); }
            if (in && long(f) != absent) it->items.emplace_back(k, message(base + f, long(f) == missing));
        }
        if (shuffle) std::shuffle(it->items.begin(), it->items.end(), vh::rng);
        return it;
    }
};

static void views() {
    for (int it = 0; it < (vh::thorough ? 150 : 14); ++it) {
        size_t nparts = 1 + vh::rnd(3), ext = vh::rnd(2), nvals = 4;
        V other{1 + vh::rnd(2), 1 + vh::rnd(3)};     // extents (compound on the second axis)
        std::vector<std::pair<ViewPart, std::shared_ptr<Extractor>>> parts;
        std::vector<std::shared_ptr<GridFdb>> fdbs;
        size_t off = 0;
        bool whole = vh::rnd(2);
        V card2{2, 1 + vh::rnd(2)};
        V esz;
        std::string desc;
        float fill = vh::rnd(2) ? -77.f : std::numeric_limits<float>::quiet_NaN();
        for (size_t p = 0; p < nparts; ++p) {
            size_t e = whole ? 1 + vh::rnd(3) : 2;
            auto f = std::make_shared<GridFdb>();
            Axis a0 = mkaxis(ext == 0 ? V{e} : V{other[0]}, 0);
            Axis a1 = ext == 1 ? mkaxis(V{e, card2[1]}, 2) : mkaxis(card2, 2);
            f->axes.push_back(a0); f->axes.push_back(a1);
            f->base = 50 * p;
            f->shuffle = vh::rnd(2);
            size_t tot = a0.size() * a1.size();
            f->missing = vh::rnd(2) ? long(vh::rnd(tot)) : -1;
            V o(2, 0);
            o[ext] = off;
            size_t es = (ext == 0 ? a0 : a1).size();
            off += es; esz.push_back(es);
            AxisChunks ce = whole ? AxisChunks(es, 1, true) : AxisChunks(1, es, false);
            Axis& oa = ext == 0 ? a1 : a0;
            size_t oc = vh::rnd(2) ? oa.size() : 1;
            if (p) oc = parts[0].first.chunks()[1 - ext].representativeExtent();
            AxisChunks co(oc, oa.size() / oc, false);
            std::vector<std::pair<Axis, AxisChunks>> ac;
            if (ext == 0) { ac.emplace_back(a0, ce); ac.emplace_back(a1, co); } else { ac.emplace_back(a0, co); ac.emplace_back(a1, ce); }
            auto ex = std::make_shared<GribExtractor>(f);
            ex->setFillValue(fill);
            parts.emplace_back(ViewPart(mkreq(f->axes), DataLayout{nvals, 4}, ac, o), ex);
            fdbs.push_back(f);
            desc += "part " + str({a0.size(), a1.size()}) + " ";
        }
        V sh = parts[0].first.extension();
        V partext0 = sh;
        sh[ext] = off;
        vh::kase("view ext=%zu whole=%d %s", ext, int(whole), desc.c_str());
        std::vector<V> pext; V poff;
        for (auto& p : parts) { pext.push_back(p.first.extension()); poff.push_back(p.first.offset()[ext]); }
        ChunkedDataViewImpl view(parts, fill, ext);
        V fsh = sh; fsh.push_back(nvals);
        CHECK("view-shape", view.shape() == fsh);
        V cs = view.chunkShape(), nc = view.chunks();
        for (size_t i = 0; i < 3; ++i) CHECK("view-chunks", nc[i] == (fsh[i] + cs[i] - 1) / cs[i], << str(nc) << " shape " << str(cs));
        V ci(3, 0);
        for (ci[0] = 0; ci[0] < nc[0]; ++ci[0]) for (ci[1] = 0; ci[1] < nc[1]; ++ci[1]) {
            vh::kase("view ext=%zu whole=%d %s chunk %zu,%zu", ext, int(whole), desc.c_str(), ci[0], ci[1]);
            std::vector<float> buf(product(cs), -1.f);
            bool t = vh::throws([&] { view.at(ci, buf.data(), buf.size()); });
            CHECK("view-at", !t);
            if (t) continue;
            for (size_t x = 0; x < cs[0]; ++x) for (size_t y = 0; y < cs[1]; ++y) for (size_t v = 0; v < nvals; ++v) {
                V g{ci[0] * cs[0] + x, ci[1] * cs[1] + y};
                size_t p = 0;
                while (p + 1 < poff.size() && g[ext] >= poff[p + 1]) ++p;
                V l = g; l[ext] -= poff[p];
                size_t f = l[0] * pext[p][1] + l[1];
                float want = float(fdbs[p]->base + f) * 8 + v;
                bool miss = long(f) == fdbs[p]->missing && v == 1;
                float got = buf[(x * cs[1] + y) * nvals + v];
                bool ok = miss ? (std::isnan(fill) ? std::isnan(got) : got == fill) : got == want;
                CHECK("view-value", ok, << "at " << x << "," << y << "," << v << " got " << got << " want " << (miss ? fill : want));
            }
        }
        std::vector<float> buf(product(cs), -1.f);
        V beyond{nc[0], 0, 0};
        CHECK("view-beyond", vh::throws([&] { view.at(beyond, buf.data(), buf.size()); }));
        beyond = {0, 0, 1};
        CHECK("view-beyond-values", vh::throws([&] { view.at(beyond, buf.data(), buf.size()); }));
        CHECK("view-dims", vh::throws([&] { view.at({0, 0}, buf.data(), buf.size()); }));
        if (product(cs) > nvals) {
            fdbs[0]->absent = 0;
            CHECK("view-missing-field", vh::throws([&] { view.at({0, 0, 0}, buf.data(), buf.size()); }));
            fdbs[0]->absent = -1;
        }
    }
}

int main(int argc, char** argv) {
    eckit::Main::initialise(1, argv);
    return vh::run(argc, argv, [] {
        if (vh::prop == "C01") { axis_maps(); buffer_index(); requests(); }
        else { boxes(); chunks(); requests(); views(); }
    });
}
