// C++ conformance driver: executes scripted operations on real z5 datasets and
// records one event per operation (arguments + observed result, abstracted).
#pragma once
#include <nlohmann/json.hpp>
#include <algorithm>
#include <fstream>
#include <variant>
#include <functional>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include "z5/factory.hxx"
#include "z5/attributes.hxx"
#include "z5/multiarray/array_access.hxx"
#include "z5/multiarray/broadcast.hxx"
#include "z5/util/functions.hxx"
#include "enc.hxx"

using json = nlohmann::json;
typedef z5::types::ShapeType Shape;

struct Ctx {
    json cfg;                 // dataset configuration of the trace
    std::string root;         // scratch directory of this trace
    std::string file;         // container path
    std::string key;          // dataset key
    std::unique_ptr<z5::Dataset> ds;
    Shape scale;              // real elements per abstract cell, per axis
    double fill = 0;
    bool ro = false;          // the dataset was opened read-only
};

// 64 bit numbers may come as strings
inline std::size_t toSize(const json & j) {
    if(j.is_string()) return std::stoull(j.get<std::string>());
    if(j.is_number_unsigned()) return j.get<std::size_t>();
    return static_cast<std::size_t>(j.get<int64_t>());
}
inline Shape toShape(const json & j) {
    Shape s; for(const auto & e : j) s.push_back(toSize(e)); return s;
}
// TLC integers have 32 bits: clamp
inline int64_t clampInt(std::size_t v) { return v > (1u << 30) ? (1 << 30) : (int64_t) v; }
inline json fromShape(const Shape & s) { json j = json::array(); for(auto v : s) j.push_back(clampInt(v)); return j; }
inline Shape rowStrides(const Shape & s) {
    Shape r(s.size(), 1); for(std::size_t d = s.size(); d-- > 1;) r[d - 1] = r[d] * s[d]; return r;
}
inline std::size_t prodOf(const Shape & s) { std::size_t p = 1; for(auto v : s) p *= v; return p; }
inline Shape mul(Shape a, const Shape & b) { for(std::size_t d = 0; d < a.size() && d < b.size(); ++d) a[d] *= b[d]; return a; }

struct OpsBase {
    virtual ~OpsBase() {}
    virtual void run(Ctx &, const z5::Dataset &, const json & op, json & ev) const = 0;
};
const OpsBase & opsFor(const std::string & dtype);

template<class F> inline void forBox(const Shape & shp, F && f) {
    const std::size_t n = prodOf(shp), nd = shp.size();
    Shape c(nd, 0);
    for(std::size_t i = 0; i < n; ++i) {
        f(i, c);
        for(std::size_t d = nd; d-- > 0;) { if(++c[d] < shp[d]) break; c[d] = 0; }
    }
}

template<class T>
struct TypedOps : OpsBase {

    // abstract values of an abstract box -> real elements (each cell expanded by `scale`)
    static std::vector<T> expand(const enc::Codec<T> & cd, const json & vals, const Shape & off, const Shape & shp,
                                 const Shape & scale) {
        const Shape rs = mul(shp, scale), ro = mul(off, scale);
        std::vector<T> out(prodOf(rs));
        forBox(rs, [&](std::size_t i, const Shape & c) {
            std::size_t k = 0; Shape g(c.size());
            for(std::size_t d = 0; d < c.size(); ++d) { k = k * shp[d] + c[d] / scale[d]; g[d] = ro[d] + c[d]; }
            out[i] = cd.encode(k < vals.size() ? vals[k].get<int>() : 0, g.data(), g.size());
        });
        return out;
    }
    // real elements -> abstract values; a cell is -1 unless all its elements agree
    static json contract(const enc::Codec<T> & cd, const std::vector<T> & real, const Shape & off, const Shape & shp,
                         const Shape & scale) {
        const Shape rs = mul(shp, scale), ro = mul(off, scale);
        std::vector<int> v(prodOf(shp), -2);
        forBox(rs, [&](std::size_t i, const Shape & c) {
            std::size_t k = 0; Shape g(c.size());
            for(std::size_t d = 0; d < c.size(); ++d) { k = k * shp[d] + c[d] / scale[d]; g[d] = ro[d] + c[d]; }
            const int x = cd.decode(real[i], g.data(), g.size());
            if(v[k] == -2) v[k] = x; else if(v[k] != x) v[k] = -1;
        });
        return json(v);
    }

    // a view of shape shp into a freshly allocated buffer with layout 0 (contiguous),
    // 1 (embedded in a larger buffer, strided), 2 (reversed axis order), canaries around
    struct Layout {
        std::vector<T> buf; Shape strides; std::size_t base = 0; std::vector<char> used;
        Layout(const Shape & shp, int kind, T canary) {
            const std::size_t nd = shp.size();
            strides.assign(nd, 1);
            if(kind == 1) {
                Shape big(shp); for(auto & s : big) s += 2;
                strides = rowStrides(big);
                buf.assign(prodOf(big), canary);
                for(std::size_t d = 0; d < nd; ++d) base += strides[d];
            } else if(kind == 2) {
                std::size_t s = 1;
                for(std::size_t d = 0; d < nd; ++d) { strides[d] = s; s *= shp[d]; }
                buf.assign(s, canary);
            } else if(kind == 3) {         // every second element along the last axis
                Shape big(shp); if(nd) big[nd - 1] *= 2;
                strides = rowStrides(big);
                if(nd) strides[nd - 1] = 2;
                buf.assign(prodOf(big), canary);
            } else {
                strides = rowStrides(shp);
                buf.assign(prodOf(shp), canary);
            }
        }
        std::size_t at(const Shape & c) const { std::size_t o = base; for(std::size_t d = 0; d < c.size(); ++d) o += c[d] * strides[d]; return o; }
    };

    void run(Ctx & cx, const z5::Dataset & ds, const json & op, json & ev) const override {
        using namespace z5::multiarray;
        const std::string name = op.at("op");
        const enc::Codec<T> cd(cx.fill);
        const int thr = op.value("thr", 1);
        const Shape & sc = cx.scale;

        if(name == "write" || name == "read" || name == "scalar") {
            const bool rawreq = op.value("rawreq", false);   // request given in real units (invalid requests)
            Shape off = toShape(op.at("off")), shp = toShape(op.at("shp"));
            ev["off"] = fromShape(off); ev["shp"] = fromShape(shp);
            Shape ro_ = rawreq ? off : mul(off, sc);
            ro_.resize(std::max<std::size_t>(ro_.size(), ds.dimension()) + 2, 0);   // passed as bare iterator
            const Shape ro = ro_, rs = rawreq ? shp : mul(shp, sc);
            const Shape er = rawreq ? Shape(shp.size(), 1) : sc;                  // expansion of the buffers
            if(name == "scalar") {
                const int v = op.at("v"); ev["v"] = v;
                Shape z(off.size(), 0);
                writeScalar<T>(ds, ro.begin(), rs.begin(), cd.encode(v, z.data(), z.size()), thr);
                return;
            }
            const int lay = op.value("lay", 0);
            if(name == "write") {
                ev["data"] = op.at("data");
                if(op.contains("huge")) {      // never allocate the (invalid) extent
                    std::vector<T> one(1);
                    writeSubarray<T>(ds, ConstArrayView<T>(one.data(), rs, Shape(rs.size(), 0)), ro.begin(), thr);
                    return;
                }
                const auto vals = expand(cd, op.at("data"), off, shp, er);
                Layout L(rs, lay, cd.c[0]);
                forBox(rs, [&](std::size_t i, const Shape & c) { L.buf[L.at(c)] = vals[i]; });
                const std::vector<T> before(L.buf);
                writeSubarray<T>(ds, ConstArrayView<T>(L.buf.data() + L.base, rs, L.strides), ro.begin(), thr);
                ev["guard"] = before.size() == L.buf.size() &&
                    (L.buf.empty() || memcmp(before.data(), L.buf.data(), before.size() * sizeof(T)) == 0);
            } else {
                if(op.contains("huge")) {
                    std::vector<T> one(1);
                    readSubarray<T>(ds, ArrayView<T>(one.data(), rs, Shape(rs.size(), 0)), ro.begin(), thr);
                    ev["data"] = json::array(); return;
                }
                const T can = cd.encode(3, ro.data(), ro.size());
                Layout L(rs, lay, can);
                readSubarray<T>(ds, ArrayView<T>(L.buf.data() + L.base, rs, L.strides), ro.begin(), thr);
                std::vector<T> vals(prodOf(rs)); std::vector<char> used(L.buf.size(), 0);
                forBox(rs, [&](std::size_t i, const Shape & c) { const auto o = L.at(c); vals[i] = L.buf[o]; used[o] = 1; });
                bool ok = true;
                for(std::size_t i = 0; i < used.size(); ++i) if(!used[i] && !enc::same(L.buf[i], can)) ok = false;
                ev["guard"] = ok;
                ev["data"] = rawreq ? json::array() : contract(cd, vals, off, shp, sc);
            }
            return;
        }

        // ------------------------------------------------------------ chunk level
        if(name == "wchunk" || name == "rchunk" || name == "rraw" || name == "cinfo") {
            const Shape p = toShape(op.at("p"));
            ev["p"] = fromShape(p);
            const Shape chunks = toShape(cx.cfg.at("chunks"));   // abstract
            const Shape shape = toShape(cx.cfg.at("shape"));
            Shape off(p), clip(p);
            bool inGrid = p.size() == shape.size();
            for(std::size_t d = 0; inGrid && d < p.size(); ++d) {
                off[d] = p[d] * chunks[d];
                if(p[d] >= (shape[d] + chunks[d] - 1) / chunks[d]) inGrid = false;
                else clip[d] = std::min(off[d] + chunks[d], shape[d]) - off[d];
            }
            if(!inGrid) { off.assign(p.size(), 0); clip.assign(p.size(), 1); }
            const bool zarr = ds.isZarr();
            if(name == "wchunk") {
                const bool var = op.value("var", false);
                ev["var"] = var; ev["data"] = op.at("data");
                if(var) {
                    std::vector<T> v; Shape pos(p); pos.push_back(0);
                    for(std::size_t i = 0; i < op.at("data").size(); ++i) {
                        pos.back() = i; v.push_back(cd.encode(op.at("data")[i].get<int>(), pos.data(), pos.size()));
                    }
                    if(v.empty()) v.resize(1);
                    ds.writeChunk(p, v.data(), true, op.at("data").size());
                    return;
                }
                std::vector<T> vals;
                if(inGrid) vals = expand(cd, op.at("data"), off, clip, sc);
                if(zarr && inGrid) {       // zarr chunks have the full shape: pad with fill
                    const Shape full = mul(chunks, sc), rc = mul(clip, sc);
                    // (or with anything else: what is outside the array is no element)
                    std::vector<T> pad(prodOf(full), op.value("junk", false) ? cd.encode(5, p.data(), p.size()) : cd.fill);
                    const Shape st = rowStrides(full);
                    forBox(rc, [&](std::size_t i, const Shape & c) {
                        std::size_t o = 0; for(std::size_t d = 0; d < c.size(); ++d) o += c[d] * st[d]; pad[o] = vals[i]; });
                    vals.swap(pad);
                }
                // the chunk writer takes a bare pointer to a full chunk
                if(!inGrid) vals.resize(std::max<std::size_t>(vals.size(), ds.defaultChunkSize()), cd.encode(5, p.data(), p.size()));
                const std::vector<T> before(vals);
                ds.writeChunk(p, vals.data());
                ev["guard"] = memcmp(before.data(), vals.data(), before.size() * sizeof(T)) == 0;
                return;
            }
            if(name == "cinfo") {
                Shape cs; ds.getChunkShape(p, cs);
                ev["cshape"] = fromShape(cs);
                json dims = json::array();
                for(unsigned d = 0; d < ds.dimension(); ++d) dims.push_back(clampInt(ds.getChunkShape(p, d)));
                ev["cdims"] = dims;
                ev["csize"] = clampInt(ds.getChunkSize(p));
                std::size_t vs = 0; const bool var = ds.checkVarlenChunk(p, vs);
                ev["var"] = var; ev["vsize"] = clampInt(vs);
                Shape o; ds.getChunkOffset(p, o); ev["coff"] = fromShape(o);
                if(!zarr && ds.chunkExists(p)) { Shape hs; ds.getChunkShape(p, hs, true); ev["hshape"] = fromShape(hs); }
                return;
            }
            if(op.value("probe", true) && !ds.chunkExists(p)) { ev["none"] = true; ev["var"] = false; ev["data"] = json::array(); return; }
            ev["none"] = false;
            std::size_t vs = 0;
            const bool isVar = inGrid && (op.value("probe", true) || ds.chunkExists(p)) && ds.checkVarlenChunk(p, vs);
            const Shape full = mul(chunks, sc);
            const std::size_t n = isVar ? vs : ((zarr || !inGrid) ? prodOf(full) : prodOf(mul(clip, sc)));
            std::vector<T> vals(std::max<std::size_t>(n, 1), cd.encode(5, p.data(), p.size()));
            bool var = isVar;
            if(name == "rchunk") var = ds.readChunk(p, vals.data());
            else {
                std::vector<char> raw; ds.readRawChunk(p, raw);
                std::size_t sz = n, hl = 0;
                if(!zarr) {        // big-endian header and payload
                    auto u = [&](std::size_t at, int k) { std::size_t r = 0; for(int i = 0; i < k; ++i) r = r * 256 + (unsigned char) raw.at(at + i); return r; };
                    var = u(0, 2) == 1; hl = 4 + 4 * u(2, 2);
                    if(var) { sz = u(hl, 4); hl += 4; }
                }
                if(hl > raw.size()) throw std::runtime_error("raw chunk without header");
                if(sz > (1u << 24)) throw std::runtime_error("raw chunk with impossible length");
                if(sz > vals.size()) vals.resize(sz);
                ds.decompress(raw.data() + hl, raw.size() - hl, vals.data(), n);
                if(!zarr) {
                    std::size_t w = sizeof(T); if(enc::is_complex<T>::value) w /= 2;
                    char * b = reinterpret_cast<char *>(vals.data());
                    for(std::size_t i = 0; i < vals.size() * sizeof(T); i += w) std::reverse(b + i, b + i + w);
                }
            }
            ev["var"] = var;
            if(isVar) {
                json v = json::array(); Shape pos(p); pos.push_back(0);
                for(std::size_t i = 0; i < vs; ++i) { pos.back() = i; v.push_back(cd.decode(vals[i], pos.data(), pos.size())); }
                ev["data"] = v; return;
            }
            if(zarr && inGrid) {
                const Shape rc = mul(clip, sc), st = rowStrides(full);
                std::vector<T> cut(prodOf(rc));
                forBox(rc, [&](std::size_t i, const Shape & c) {
                    std::size_t o = 0; for(std::size_t d = 0; d < c.size(); ++d) o += c[d] * st[d]; cut[i] = vals[o]; });
                vals.swap(cut);
            }
            ev["data"] = inGrid ? contract(cd, vals, off, clip, sc) : json::array();
            return;
        }

        // ------------------------------------------------------------- utilities
        if(name == "unique" || name == "counts" || name == "trivial") {
            // only used with scale 1 and constant values (see generator): positions do not matter
            Shape z(1, 0);
            if(name == "trivial") {
                const bool spec = op.value("specific", false); const int v = op.value("v", 0);
                ev["specific"] = spec; ev["v"] = v;
                if constexpr(!enc::is_complex<T>::value) z5::util::removeTrivialChunks<T>(ds, thr, spec, cd.encode(v, z.data(), 1));
                return;
            }
            if constexpr(!enc::is_complex<T>::value) {
                json vals = json::array(), cnt = json::array();
                if(name == "unique") {
                    std::set<T> u; z5::util::unique<T>(ds, thr, u);
                    for(const T x : u) vals.push_back(cd.decode(x, z.data(), 1));
                } else {
                    std::map<T, size_t> u; z5::util::uniqueWithCounts<T>(ds, thr, u);
                    for(const auto & x : u) { vals.push_back(cd.decode(x.first, z.data(), 1)); cnt.push_back(clampInt(x.second)); }
                }
                ev["vals"] = vals; ev["counts"] = cnt;
            }
            return;
        }
        throw std::logic_error("zdrv: unknown typed op " + name);
    }
};
