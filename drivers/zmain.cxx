#include "zdrv.hxx"
#define SHAKE_FILES
#include "shake.hxx"
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#ifndef __has_feature
#define __has_feature(x) 0
#endif
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <atomic>
#include <chrono>
#include <iostream>

const OpsBase & zops_i8(int); const OpsBase & zops_i32(int); const OpsBase & zops_u8(int);
const OpsBase & zops_u32(int); const OpsBase & zops_f(int); const OpsBase & zops_c(int);

const OpsBase & opsFor(const std::string & d) {
    if(d == "int8") return zops_i8(0);   if(d == "int16") return zops_i8(1);
    if(d == "int32") return zops_i32(0); if(d == "int64") return zops_i32(1);
    if(d == "uint8") return zops_u8(0);  if(d == "uint16") return zops_u8(1);
    if(d == "uint32") return zops_u32(0);if(d == "uint64") return zops_u32(1);
    if(d == "float32") return zops_f(0); if(d == "float64") return zops_f(1);
    if(d == "complex64") return zops_c(0); if(d == "complex128") return zops_c(1);
    throw std::logic_error("dtype " + d);
}

static std::string hexOf(const std::string & s) {
    static const char * H = "0123456789abcdef"; std::string o;
    for(unsigned char c : s) { o += H[c >> 4]; o += H[c & 15]; } return o;
}
static std::string slurp(const fs::path & p) {
    std::ifstream f(p, std::ios::binary); return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}
static bool isMeta(const std::string & n) {
    return n == ".zarray" || n == ".zattrs" || n == ".zgroup" || n == "attributes.json" || n == "zarr.json";
}
// hash of everything (names, kinds, bytes) below a directory
static int64_t treeHash(const fs::path & dir) {
    uint64_t h = 1469598103934665603ULL;
    auto mix = [&](const std::string & s) { for(unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } h ^= 0xFF; h *= 1099511628211ULL; };
    if(!fs::exists(dir)) return 0;
    std::vector<fs::path> v;
    for(const auto & e : fs::recursive_directory_iterator(dir)) v.push_back(e.path());
    std::sort(v.begin(), v.end());
    for(const auto & p : v) { mix(p.string().substr(dir.string().size())); if(fs::is_directory(p)) mix("<dir>"); else mix(slurp(p)); }
    return int64_t((h ^ (h >> 32)) & 0x3FFFFFFF);
}

static z5::FileMode::modes modeOf(const std::string & m) {
    if(m == "r") return z5::FileMode::r; if(m == "r+") return z5::FileMode::r_p; if(m == "w") return z5::FileMode::w;
    if(m == "w-") return z5::FileMode::w_m; return z5::FileMode::a;
}

static std::string dtypeName(const z5::types::Datatype d) {
    using namespace z5::types;
    switch(d) { case int8: return "int8"; case int16: return "int16"; case int32: return "int32"; case int64: return "int64";
        case uint8: return "uint8"; case uint16: return "uint16"; case uint32: return "uint32"; case uint64: return "uint64";
        case float32: return "float32"; case float64: return "float64"; case complex64: return "complex64";
        case complex128: return "complex128"; default: return "other"; }
}
static Shape realShape(const Ctx & cx, const char * k) { return mul(toShape(cx.cfg.at(k)), cx.scale); }

// the container, on the file system or on the object store
template<class F> static void withFile(Ctx & cx, const std::string & mode, F && f) {
#ifdef WITH_S3
    if(cx.cfg.value("backend", std::string()) == "s3") {
        f(z5::s3::handle::File(cx.root, cx.file.substr(cx.root.size() + 1), modeOf(mode), "http://localhost:9000", "us-east-1", true));
        return;
    }
#endif
    f(z5::filesystem::handle::File(cx.file, modeOf(mode)));
}

template<class FILE_> static void doCreate(Ctx & cx, const FILE_ & f) {
    const json & c = cx.cfg;
    const bool zarr = c.at("fmt") != "n5"; const int zf = c.at("fmt") == "zarr3" ? 3 : 2;
    if(!fs::exists(cx.file)) z5::createFile(f, zarr, zf);
    const std::string sep = c.value("sep", zf == 3 ? "/" : ".");
    const std::string dt = c.at("dtype"), codec = c.value("codec", std::string("raw"));
    if(dt.rfind("complex", 0) == 0) {      // the string interface knows no complex types
        z5::types::CompressionOptions co;
        const auto comp = z5::types::Compressors::stringToCompressor().at(codec);
        const json jo = c.value("opts", json::object());
        for(const auto & o : jo.items()) {
            if(o.value().is_boolean()) co[o.key()] = o.value().get<bool>();
            else if(o.value().is_string()) co[o.key()] = o.value().get<std::string>();
            else co[o.key()] = o.value().get<int>();
        }
        z5::types::defaultCompressionOptions(comp, co, zarr);
        z5::DatasetMetadata m(dt == "complex64" ? z5::types::complex64 : z5::types::complex128, realShape(cx, "shape"),
                              realShape(cx, "chunks"), zarr, comp, co, cx.fill, sep);
        cx.ds = z5::createDataset(f, cx.key, m);
        return;
    }
    cx.ds = z5::createDataset(f, cx.key, dt, realShape(cx, "shape"), realShape(cx, "chunks"),
                              codec, c.value("opts", json::object()), cx.fill, sep, zf,
                              c.value("enc", std::string("default")), realShape(cx, "shards"));
}
static void doOpen(Ctx & cx, const std::string & mode) {
    cx.ds.reset();
    withFile(cx, mode, [&](const auto & f) { cx.ds = z5::openDataset(f, cx.key); });
    cx.ro = mode == "r";
}

#ifdef WITH_S3
static int failAfter = 0;      // a failing request had its effect
#endif
static void runOp(Ctx & cx, const json & op, json & ev);

static void guarded(Ctx & cx, const json & op, json & ev) {
    ev["op"] = op.at("op"); ev["res"] = "ok";
    if(cx.ro) ev["ro"] = true;
    try { runOp(cx, op, ev); }
    catch(const std::logic_error & e) {
        if(std::string(e.what()).rfind("zdrv:", 0) == 0) throw;
        ev["res"] = "err"; ev["what"] = std::string(e.what()).substr(0, 120);
    }
    catch(const std::exception & e) { ev["res"] = "err"; ev["what"] = std::string(e.what()).substr(0, 120); }
    catch(...) { ev["res"] = "err"; ev["what"] = "unknown exception"; }
}

static int64_t fileHash(const fs::path & p) {
    uint64_t h = 1469598103934665603ULL;
    for(unsigned char c : slurp(p)) { h ^= c; h *= 1099511628211ULL; }
    return fs::exists(p) ? int64_t((h ^ (h >> 32)) & 0x3FFFFFFF) : -1;
}
static uint32_t crc32cOf(const std::string & s) {
    uint32_t c = 0xFFFFFFFFu;
    for(unsigned char b : s) { c ^= b; for(int k = 0; k < 8; ++k) c = (c >> 1) ^ (0x82F63B78u & (0u - (c & 1u))); }
    return ~c;
}
static uint64_t le(const std::string & s, std::size_t at, int n) { uint64_t v = 0; for(int i = n; i-- > 0;) v = v << 8 | (unsigned char) s.at(at + i); return v; }
static std::string leOf(uint64_t v, int n) { std::string s; for(int i = 0; i < n; ++i) s += char(v >> (8 * i)); return s; }

// change the bytes of a stored object: lvl "chunk": of one chunk (inside of a shard, the index is kept right),
// "index": of the index of a shard, "slot": one entry of the index, with a valid checksum
static void alter(std::string & s, const json & op) {
    const std::string how = op.at("how"); const int64_t at = op.value("at", 0);
    if(how == "trunc") s.resize(at < 0 ? std::max<int64_t>(0, (int64_t) s.size() + at) : std::min<int64_t>(at, s.size()));
    else if(how == "part") s.resize(s.size() * (std::size_t) op.at("num").get<int>() / 1000);
    else if(how == "flip") { const int64_t i = at < 0 ? (int64_t) s.size() + at : at; if(i >= 0 && i < (int64_t) s.size()) s[i] ^= (char) op.value("mask", 1); }
    else if(how == "append") s += std::string(op.value("n", 1), (char) op.value("mask", 0));
    else if(how == "double") s += s;
    else if(how == "head") s.erase(0, std::min<std::size_t>(op.value("n", 1), s.size()));
    else throw std::logic_error("zdrv: how " + how);
}
static void damage(Ctx & cx, const json & op, json & ev) {
    const fs::path f = fs::path(cx.file) / cx.key / op.at("file").get<std::string>();
    const std::string lvl = op.at("lvl");
    ev["p"] = op.at("p"); ev["lvl"] = lvl; ev["none"] = false; ev["same"] = false; ev["fh"] = 0;
    if(!fs::exists(f)) { ev["none"] = true; return; }
    // a second damage could undo the first one
    static std::map<std::string, int64_t> done;
    static std::map<std::string, std::string> doneSlot;
    if(done.count(f.string()) && done[f.string()] == fileHash(f)) { ev["same"] = true; return; }
    const std::string old = slurp(f); std::string s = old;
    const std::size_t n = op.value("nslots", 0);
    if(n == 0 || lvl == "index") alter(s, op);
    else {
        // an index that is unreadable already stays so
        if(s.size() < 16 * n + 4 || crc32cOf(s.substr(s.size() - 16 * n - 4, 16 * n)) != le(s, s.size() - 4, 4)) { ev["same"] = true; return; }
        const std::size_t start = s.size() - (16 * n + 4), slot = op.at("slot");
        std::string index = s.substr(start, 16 * n), body = s.substr(0, start);
        const uint64_t o = le(index, 16 * slot, 8), len = le(index, 16 * slot + 8, 8);
        uint64_t no = o, nl = len;
        if(lvl == "slot") {           // impossible extents
            const std::string how = op.at("how"); const std::size_t x = op.value("n", 1);
            const bool absent = o == ~uint64_t(0);
            if(absent) { no = 0; nl = body.size() + x; }
            else if(how == "zero") nl = 0;                                   // no chunk has zero bytes
            else if(how == "long") nl = body.size() - o + x;
            else if(how == "far") no = body.size() + x;
            else if(how == "index") no = body.size() + 16 * n + 4 - len;      // inside of the index
            else if(how == "wrap") { no = ~uint64_t(0) - x; nl = len + x + 1; }
            else if(how == "wraplen") nl = ~uint64_t(0) - x;
            else throw std::logic_error("zdrv: how " + how);
        } else {
            if(o != ~uint64_t(0) && (o > start || len > start - o)) { ev["same"] = true; return; }
            if(o == ~uint64_t(0)) { ev["none"] = true; return; }
            std::string c = body.substr(o, len); const std::string c0 = c; alter(c, op);
            const std::string slotName = f.string() + "#" + std::to_string(slot);
            if(c == c0 || (doneSlot.count(slotName) && doneSlot[slotName] == c0)) { ev["same"] = true; return; }
            doneSlot[slotName] = c;
            if(c.empty()) ev["lvl"] = "slot";            // no chunk has zero bytes: the entry is impossible
            // all chunks again one behind the other
            std::string nb, ni;
            for(std::size_t i = 0; i < n; ++i) {
                const uint64_t io = le(index, 16 * i, 8), il = le(index, 16 * i + 8, 8);
                if(io == ~uint64_t(0)) { ni += leOf(io, 8) + leOf(il, 8); continue; }
                if(io > start || il > start - io) { ev["same"] = true; return; }
                const std::string x = i == slot ? c : body.substr(io, il);
                if(i == slot) { no = nb.size(); nl = x.size(); }
                ni += leOf(nb.size(), 8) + leOf(x.size(), 8); nb += x;
            }
            body = nb; index = ni;
        }
        index.replace(16 * slot, 16, leOf(no, 8) + leOf(nl, 8));
        s = body + index + leOf(crc32cOf(index), 4);
    }
    if(s == old) { ev["same"] = true; return; }
    { std::ofstream out(f, std::ios::binary | std::ios::trunc); out << s; }
    ev["fh"] = fileHash(f);
    if(ev["lvl"] != "chunk" || n == 0) done[f.string()] = fileHash(f);
}

// an operation during which the k-th storage call fails, or the process ends
static void runFault(Ctx & cx, const json & op, json & ev) {
    const json & in = op.at("in"); const std::string how = op.at("how"); const long k = op.at("k");
    json e{{"op", in.at("op")}, {"res", "killed"}};
    for(const char * x : {"off", "shp", "data", "v", "p", "specific"}) if(in.contains(x)) e[x] = in.at(x);
    if(in.at("op") == "wchunk") e["var"] = in.value("var", false);
    ev["how"] = how; ev["k"] = k;
#ifdef WITH_S3
    failAfter = op.value("after", 0);
#endif
    if(how == "fail" || how == "full") {
        fault_arm(cx.root.c_str(), k, how == "fail" ? 1 : 2);
        json r; guarded(cx, in, r);
        ev["fired"] = fault_disarm() != 0;
        e["res"] = r.at("res"); if(r.contains("what")) e["what"] = r["what"];
        ev["in"] = e; return;
    }
    const std::string note = cx.root + ".note";
    const pid_t pid = fork();
    if(pid == 0) {
        fault_arm(cx.root.c_str(), k, how == "kill" ? 3 : 4);
        json r; guarded(cx, in, r);
        fault_disarm();
        std::ofstream(note) << r.dump();
        _exit(0);
    }
    int st = 0; waitpid(pid, &st, 0);
    ev["fired"] = WIFEXITED(st) && WEXITSTATUS(st) == 77;
    if(!ev["fired"].get<bool>()) {
        if(!WIFEXITED(st) || WEXITSTATUS(st) != 0) e["res"] = "crash";
        else { const json r = json::parse(slurp(note)); e["res"] = r.at("res"); if(r.contains("what")) e["what"] = r["what"]; }
    }
    fs::remove(note);
    ev["in"] = e;
}

static void runOp(Ctx & cx, const json & op, json & ev) {
    const std::string name = op.at("op");
    if(name == "open") { ev["mode"] = op.value("mode", "r+"); doOpen(cx, op.value("mode", std::string("r+"))); return; }
    if(name == "create") { withFile(cx, "a", [&](const auto & f) { doCreate(cx, f); }); return; }
    if(name == "foreign") {        // a dataset of another implementation appears
        for(const auto & x : op.at("files").items()) {
            const fs::path p = fs::path(cx.file) / x.key(); const std::string h = x.value(); std::string s;
            for(std::size_t i = 0; i + 1 < h.size(); i += 2) s += (char) std::stoi(h.substr(i, 2), nullptr, 16);
            fs::create_directories(p.parent_path()); std::ofstream(p, std::ios::binary | std::ios::trunc) << s;
        }
        ev["st"] = op.at("st"); ev["ext"] = op.at("ext"); if(op.contains("variant")) ev["variant"] = op["variant"];
        return;
    }
    if(!cx.ds && name != "disk" && name != "mutate" && name != "fhash" && name != "metadoc") throw std::runtime_error("no dataset open");
    if(name == "meta") {
        const auto & ds = *cx.ds;
        ev["shape"] = fromShape(ds.shape()); ev["chunks"] = fromShape(ds.defaultChunkShape());
        ev["shards"] = fromShape(ds.shardShape()); ev["nchunks"] = clampInt(ds.numberOfChunks());
        ev["grid"] = fromShape(ds.chunksPerDimension()); ev["zarr"] = ds.isZarr(); ev["sharded"] = ds.isSharded();
        ev["dtype"] = dtypeName(ds.getDtype()); ev["size"] = clampInt(ds.size());
        ev["csize"] = clampInt(ds.defaultChunkSize());
        std::string comp; ds.getCompressor(comp); ev["codec"] = comp;
        z5::types::CompressionOptions o; ds.getCompressionOptions(o); json j = json::object();
        for(const auto & x : o) std::visit([&](const auto & v) { j[x.first] = v; }, x.second);
        ev["opts"] = j;
        return;
    }
    if(name == "exists") { const Shape p = toShape(op.at("p")); ev["p"] = fromShape(p); ev["val"] = cx.ds->chunkExists(p); return; }
    if(name == "rmchunk") { const Shape p = toShape(op.at("p")); ev["p"] = fromShape(p); cx.ds->removeChunk(p); return; }
    if(name == "keypath") { const Shape p = toShape(op.at("p")); ev["p"] = fromShape(p); fs::path q; cx.ds->chunkPath(p, q);
                            ev["key"] = q.lexically_relative(fs::path(cx.file) / cx.key).generic_string(); return; }
    if(name == "rmds") { z5::util::removeDataset(*cx.ds, op.value("thr", 1)); ev["gone"] = !fs::exists(fs::path(cx.file) / cx.key); return; }
    if(name == "disk") {       // chunk/shard files of the dataset, as hex
        json f = json::object(); const fs::path root = fs::path(cx.file) / cx.key;
        if(fs::exists(root)) for(const auto & e : fs::recursive_directory_iterator(root)) if(e.is_regular_file() && !isMeta(e.path().filename().string()))
            f[e.path().lexically_relative(root).generic_string()] = hexOf(slurp(e.path()));
        ev["files"] = f; return;
    }
    if(name == "metadoc") {
        const fs::path root = fs::path(cx.file) / cx.key; const std::string fmt = cx.cfg.at("fmt");
        ev["doc"] = json::parse(slurp(root / (fmt == "n5" ? "attributes.json" : fmt == "zarr2" ? ".zarray" : "zarr.json"))); return;
    }
    if(name == "fhash") { const Shape p = toShape(op.at("p")); ev["p"] = fromShape(p); ev["fh"] = fileHash(fs::path(cx.file) / cx.key / op.at("file").get<std::string>()); return; }
    if(name == "fault") { runFault(cx, op, ev); return; }
    if(name == "mutate" && op.contains("lvl")) { damage(cx, op, ev); return; }
    if(name == "mutate") {     // damage a stored file: truncate / set byte / append / empty
        const fs::path p = fs::path(cx.file) / cx.key / op.at("file").get<std::string>();
        std::string s = slurp(p);
        const std::string how = op.at("how"); const int64_t at = op.value("at", 0);
        if(how == "trunc") s.resize(at < 0 ? std::max<int64_t>(0, (int64_t) s.size() + at) : std::min<int64_t>(at, s.size()));
        else if(how == "flip") { const int64_t i = at < 0 ? (int64_t) s.size() + at : at; if(i >= 0 && i < (int64_t) s.size()) s[i] ^= (char) op.value("mask", 1); }
        else if(how == "append") s += std::string(op.value("n", 1), (char) op.value("mask", 0));
        else if(how == "set") { s.clear(); const std::string h = op.at("hex"); for(std::size_t i = 0; i + 1 < h.size(); i += 2) s += (char) std::stoi(h.substr(i, 2), nullptr, 16); }
        fs::create_directories(p.parent_path());
        std::ofstream f(p, std::ios::binary | std::ios::trunc); f << s; f.close();
        return;
    }
    if(name == "wrongtype") {      // request with another element type
        const std::string k = op.at("kind"); const Shape off = mul(toShape(op.at("off")), cx.scale), shp = mul(toShape(op.at("shp")), cx.scale);
        std::vector<uint64_t> big(prodOf(shp) * 4 + 4); const std::string as = op.at("as"); ev["as"] = as; ev["kind"] = k;
        auto go = [&](auto tag) { typedef decltype(tag) U; using namespace z5::multiarray;
            if(k == "read") readSubarray<U>(*cx.ds, makeView(reinterpret_cast<U *>(big.data()), shp), off.begin());
            else if(k == "write") writeSubarray<U>(*cx.ds, ConstArrayView<U>(makeView(reinterpret_cast<U *>(big.data()), shp)), off.begin());
            else writeScalar<U>(*cx.ds, off.begin(), shp.begin(), U(1)); };
        if(as == "uint8") go(uint8_t()); else if(as == "int16") go(int16_t()); else if(as == "int32") go(int32_t());
        else if(as == "float32") go(float()); else if(as == "float64") go(double()); else go(uint64_t());
        return;
    }
    if(name == "foreach") {
        const std::string k = op.at("kind"); const int thr = op.value("thr", 1);
        ev["kind"] = k; ev["thr"] = thr;
        std::mutex m; json vis = json::array(); int maxT = 0;
        std::vector<std::atomic<int>> inUse(256); std::atomic<bool> overlap(false); for(auto & a : inUse) a = 0;
        auto enter = [&](int t) { if(t < 0 || t > 255 || inUse[t].fetch_add(1) != 0) overlap = true; };
        auto leave = [&](int t) { if(t >= 0 && t <= 255) inUse[t].fetch_sub(1); };
        auto onChunk = [&](const int t, const z5::Dataset & d, const Shape & c) {
            enter(t); { std::lock_guard<std::mutex> l(m); vis.push_back(json{{"p", fromShape(c)}}); maxT = std::max(maxT, t); } leave(t); };
        auto onBlock = [&](const int t, const z5::Dataset & d, const Shape & b, const Shape & s) {
            enter(t); { std::lock_guard<std::mutex> l(m); vis.push_back(json{{"b", fromShape(b)}, {"s", fromShape(s)}}); maxT = std::max(maxT, t); } leave(t); };
        if(k == "chunk") z5::util::parallel_for_each_chunk(*cx.ds, thr, onChunk);
        else {
            const Shape bs = op.contains("bs") ? toShape(op.at("bs")) : Shape(); if(op.contains("bs")) ev["bs"] = op.at("bs");
            if(k == "block") z5::util::parallel_for_each_block(*cx.ds, bs, thr, onBlock);
            else { Shape lo = toShape(op.at("lo")), hi = toShape(op.at("hi")); ev["lo"] = op.at("lo"); ev["hi"] = op.at("hi");
                if(k == "chunkroi") z5::util::parallel_for_each_chunk_in_roi(*cx.ds, lo, hi, thr, onChunk);
                else z5::util::parallel_for_each_block_in_roi(*cx.ds, bs, lo, hi, thr, onBlock); }
        }
        ev["vis"] = vis; ev["maxt"] = maxT; ev["overlap"] = overlap.load();
        return;
    }
    if(name == "geo") {            // a grid of blocks by itself
        const Shape gs = toShape(op.at("gs")), bs = toShape(op.at("bs")), lo = toShape(op.at("lo")), shp = toShape(op.at("shp"));
        const z5::util::Blocking b(gs, bs);
        for(const char * x : {"gs", "bs", "lo", "shp"}) ev[x] = op.at(x);
        ev["n"] = b.numberOfBlocks(); ev["grid"] = fromShape(b.blocksPerDimension());
        ev["same"] = b.shape() == gs && b.blockShape() == bs;
        json blocks = json::array();
        for(std::size_t id = 0; id < b.numberOfBlocks(); ++id) {
            Shape p, b0, s0, b1, s1, b2, e2, b3, e3;
            b.blockIdToBlockCoordinate(id, p); b.getBlockBeginAndShape(id, b0, s0); b.getBlockBeginAndShape(p, b1, s1);
            b.getBlockBeginAndEnd(id, b2, e2); b.getBlockBeginAndEnd(p, b3, e3);
            blocks.push_back(json{{"p", fromShape(p)}, {"id", b.blockCoordinatesToBlockId(p)}, {"b", fromShape(b0)}, {"s", fromShape(s0)}, {"e", fromShape(e2)},
                                  {"same", b0 == b1 && b0 == b2 && b0 == b3 && s0 == s1 && e2 == e3}, {"in", b.checkBlockCoordinate(p)}});
        }
        ev["blocks"] = blocks;
        json el = json::array();
        for(const auto & x : op.at("el")) { Shape p; b.coordinateToBlockCoordinate(toShape(x), p); el.push_back(json{{"c", x}, {"p", fromShape(p)}}); }
        ev["el"] = el;
        std::vector<Shape> l; b.getBlocksOverlappingRoi(lo, shp, l);
        json roi = json::array();
        for(const auto & p : l) {
            Shape r, s, c; const bool full = b.getCoordinatesInRoi(p, lo, shp, r, s, c);
            roi.push_back(json{{"p", fromShape(p)}, {"r", fromShape(r)}, {"s", fromShape(s)}, {"c", fromShape(c)}, {"full", full}});
        }
        ev["roi"] = roi;
        json out = json::array();
        for(const auto & x : op.at("out")) out.push_back(json{{"p", x}, {"in", b.checkBlockCoordinate(toShape(x))}});
        ev["out"] = out;
        return;
    }
    if(name == "par") {            // concurrent programs on the shared dataset object
        const auto & progs = op.at("progs"); const std::size_t n = progs.size();
        std::vector<json> evs(n, json::array()); std::vector<std::thread> th;
        std::atomic<std::size_t> ready(0); std::atomic<bool> bad(false); std::atomic<int> clock(0);
        shake::seed = op.value("shake", 0u);
        const bool handles = op.value("handles", false);       // a dataset object per thread
        for(std::size_t i = 0; i < n; ++i) th.emplace_back([&, i] {
            Ctx mine; mine.cfg = cx.cfg; mine.root = cx.root; mine.file = cx.file; mine.key = cx.key; mine.scale = cx.scale; mine.fill = cx.fill;
            if(handles) try { doOpen(mine, "r+"); } catch(...) { bad = true; }
            Ctx & use = handles ? mine : cx;
            ready.fetch_add(1); while(ready.load() < n) std::this_thread::yield();
            for(const auto & o : progs[i]) {
                json e; const int ts = clock.fetch_add(1);
                try { guarded(use, o, e); } catch(...) { bad = true; }
                e["ts"] = ts; e["te"] = clock.fetch_add(1);
                evs[i].push_back(e);
            }
        });
        for(auto & t : th) t.join();
        shake::seed = 0;
        if(bad) throw std::logic_error("zdrv: par");
        ev["progs"] = evs; return;
    }
    opsFor(cx.cfg.at("dtype")).run(cx, *cx.ds, op, ev);
}

#ifdef WITH_S3
static int s3hook(const char kind, const char * path) {
    if(!fault::below(path) || !fault::hit(true)) return 0;
    return failAfter && kind != 'H' && kind != 'L' ? 2 : 1;
}
#endif

int main(int argc, char ** argv) {
#ifdef WITH_S3
    fakes3::hook = s3hook;
#endif
    if(argc < 4) { std::cerr << "zdrv SCRIPT OUT SCRATCH [timeout]\n"; return 2; }
    std::ifstream in(argv[1]); const std::string scratch = argv[3]; const int tmo = argc > 4 ? atoi(argv[4]) : 60;
    const std::string outp = argv[2];
    { std::ofstream o(outp, std::ios::trunc); }
    std::string line; std::size_t num = 0; int hung = 0;
    while(std::getline(in, line)) {
        if(line.empty()) continue;
        const json tr = json::parse(line); ++num;
        // a directory given by the caller is kept (and removed) by the caller
        const bool kept = tr.contains("root");
        const std::string root = kept ? tr.at("root").get<std::string>() : scratch + "/t" + std::to_string(num);
        fs::create_directories(root);
        const int fd = ::open(outp.c_str(), O_WRONLY | O_APPEND);
        auto emit = [&](const json & j) { const std::string s = j.dump(-1, ' ', false, json::error_handler_t::replace) + "\n"; if(::write(fd, s.data(), s.size()) < 0) _exit(3); };
        emit(json{{"begin", tr.at("id")}});
        if(hung > 1) { ::close(fd); if(!kept) fs::remove_all(root); continue; }
        const pid_t pid = fork();
        if(pid == 0) {
            // an operation must not be able to hang the run or fill memory
            ::alarm(tmo);
#if !defined(__SANITIZE_ADDRESS__) && !__has_feature(address_sanitizer)
            const rlimit most{8ull << 30, 8ull << 30}; setrlimit(RLIMIT_AS, &most);
#endif
            Ctx cx; cx.cfg = tr.at("cfg"); cx.root = root; cx.file = root + "/" + cx.cfg.value("file", std::string("c")); cx.key = cx.cfg.value("key", std::string("data"));
            cx.fill = cx.cfg.value("fillreal", 0.0);
            if(cx.cfg.contains("fillspecial")) { const std::string s = cx.cfg.at("fillspecial");
                cx.fill = s == "nan" ? std::nan("") : s == "inf" ? INFINITY : -INFINITY; }
            cx.scale = cx.cfg.contains("scale") ? toShape(cx.cfg.at("scale")) : Shape(cx.cfg.at("shape").size(), 1);
            const bool hashAll = tr.value("hash", false);
            try {
                for(const auto & op : tr.at("ops")) {
                    json ev;
                    if(hashAll) ev["h0"] = treeHash(root);
                    guarded(cx, op, ev);
                    if(hashAll) ev["h1"] = treeHash(root);
                    emit(ev);
                }
            } catch(const std::exception & e) { emit(json{{"op", "harness"}, {"res", "err"}, {"what", e.what()}}); _exit(7); }
            cx.ds.reset();
            _exit(0);
        }
        int st = 0; waitpid(pid, &st, 0);
        if(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) ++hung;              // the specification judges what there is
        if(WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 7))
            emit(json{{"op", "crash"}, {"res", "crash"}, {"sig", WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st)}});
        ::close(fd);
        // the scratch directory of this trace, and nothing else
        if(!kept && root.rfind(scratch + "/t", 0) == 0) fs::remove_all(root);
    }
    return 0;
}
