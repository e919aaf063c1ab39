// Containers, groups, attributes and creation through the C++ interface (events of TraceTree).
#include "zdrv.hxx"
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

#ifdef WITH_S3          // on the stand-in for the SDK: objects are files below the bucket
namespace backend = z5::s3;
#else
namespace backend = z5::filesystem;
#endif
typedef backend::handle::File File;
typedef backend::handle::Group Group;
typedef backend::handle::Dataset DsHandle;
typedef std::vector<std::string> Path;

static std::string slurp(const fs::path & p) {
    std::ifstream f(p, std::ios::binary); return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}
static int64_t treeHash(const fs::path & dir) {
    uint64_t h = 1469598103934665603ULL;
    auto mix = [&](const std::string & s) { for(unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } h ^= 0xFF; h *= 1099511628211ULL; };
    std::vector<fs::path> v;
    for(const auto & e : fs::recursive_directory_iterator(dir)) v.push_back(e.path());
    std::sort(v.begin(), v.end());
    for(const auto & p : v) { mix(p.string().substr(dir.string().size())); if(fs::is_directory(p)) mix("<dir>"); else mix(slurp(p)); }
    return int64_t((h ^ (h >> 32)) & 0x3FFFFFFF);
}
static z5::FileMode modeOf(const std::string & m) {
    if(m == "r") return z5::FileMode::r; if(m == "r+") return z5::FileMode::r_p; if(m == "w") return z5::FileMode::w;
    if(m == "w-") return z5::FileMode::w_m; if(m == "a") return z5::FileMode::a;
    throw std::logic_error("ztree: mode " + m);
}
static std::string dtypeName(const z5::types::Datatype d) {
    using namespace z5::types;
    switch(d) { case int8: return "int8"; case int16: return "int16"; case int32: return "int32"; case int64: return "int64";
        case uint8: return "uint8"; case uint16: return "uint16"; case uint32: return "uint32"; case uint64: return "uint64";
        case float32: return "float32"; case float64: return "float64"; default: return "other"; }
}
template<class F> static void withType(const z5::types::Datatype d, F && f) {
    using namespace z5::types;
    switch(d) { case int8: f(int8_t()); break; case int16: f(int16_t()); break; case int32: f(int32_t()); break; case int64: f(int64_t()); break;
        case uint8: f(uint8_t()); break; case uint16: f(uint16_t()); break; case uint32: f(uint32_t()); break; case uint64: f(uint64_t()); break;
        case float32: f(float()); break; case float64: f(double()); break; default: throw std::runtime_error("type"); }
}
static Path toPath(const json & j) { Path p; for(const auto & x : j) p.push_back(x); return p; }
// the canonical text python makes of a value
static std::string canon(const json & j) { return j.dump(); }

struct Runner {
    json cfg;
    std::string root, path;
    bool zarr; int zf;
    std::map<std::pair<std::string, Path>, std::unique_ptr<z5::Dataset>> objs;

#ifdef WITH_S3
    File fileAt(const Path & p, const std::size_t n, const z5::FileMode mode) const {
        std::string k = cfg.value("prefix", std::string()); for(std::size_t i = 0; i < n; ++i) k += (k.empty() ? "" : "/") + p[i];
        return File(root + "/c", k, mode, "http://localhost:9000", "us-east-1", true);
    }
    Group groupAt(const Path & p, const std::size_t n, const z5::FileMode mode) const { return Group(fileAt(p, n - 1, mode), p[n - 1]); }
    File file(const json & op) const { return fileAt({}, 0, modeOf(op.at("mode"))); }
    bool there() const { return fileAt({}, 0, z5::FileMode(z5::FileMode::r)).exists(); }
    static Group sub(const Group & g, const std::string & k) { return Group(g, k); }
#else
    File file(const json & op) const { return File(path, modeOf(op.at("mode"))); }
    Group groupAt(const Path & p, const std::size_t n, const z5::FileMode mode) const { fs::path q = path; for(std::size_t i = 0; i < n; ++i) q /= p[i]; return Group(q, mode); }
    bool there() const { return fs::exists(path); }
    static Group sub(const Group & g, const std::string & k) { return Group(Group(g.path(), g.mode()), k); }
#endif

    // the group at the first n names of a path, reached step by step (or at once, or through a handle made from its place)
    Group group(const json & op, const Path & p, const std::size_t n) const {
        const File f = file(op); const int how = op.value("deco", 0);
        if(how == 3) return groupAt(p, n, modeOf(op.at("mode")));
        if(how == 2 && n > 0) { std::string k; for(std::size_t i = 0; i < n; ++i) k += (i ? "/" : "") + p[i]; return Group(f, k); }
        Group g(f, p[0]);
        for(std::size_t i = 1; i < n; ++i) g = sub(g, p[i]);
        return g;
    }
    static std::string join(const Path & p, const std::size_t from) { std::string k; for(std::size_t i = from; i < p.size(); ++i) k += (i > from ? "/" : "") + p[i]; return k; }

    // call f with the handle of a group: the file itself for the root
    template<class F> auto with(const json & op, const Path & p, const std::size_t n, F && f) const {
        if(n == 0) { const File h = file(op); return f(h); }
        const Group g = group(op, p, n); return f(g);
    }
    std::size_t via(const json & op, const Path & p) const {
        const std::size_t v = op.value("via", 0);
        if(p.empty()) return 0;
        return v < p.size() ? v : p.size() - 1;
    }
    bool has(const json & op, const Path & p) const {
        if(p.empty()) return there();
        const std::size_t v = via(op, p);
        return with(op, p, v, [&](const auto & g) { return g.exists() && g.in(join(p, v)); });
    }
    bool isGroup(const json & op, const Path & p) const {
        if(p.empty()) return true;
        const std::size_t v = via(op, p);
        return with(op, p, v, [&](const auto & g) { return z5::isSubGroup(g, join(p, v)); });
    }
    void need(const json & op, const Path & p) const { if(!has(op, p)) throw std::runtime_error("no such node"); }
    void needGroup(const json & op, const Path & p) const { need(op, p); if(!isGroup(op, p)) throw std::runtime_error("not a group"); }

    const z5::Dataset & dataset(const json & op, const Path & p) {
        const auto key = std::make_pair(op.at("mode").get<std::string>(), p);
        if(p.empty()) throw std::runtime_error("not a dataset");
        if(op.value("cached", false) && objs.count(key)) return *objs[key];
        need(op, p);
        if(isGroup(op, p)) throw std::runtime_error("not a dataset");
        const std::size_t v = via(op, p);
        objs[key] = with(op, p, v, [&](const auto & g) { return z5::openDataset(g, join(p, v)); });
        return *objs[key];
    }
    json observe(const z5::Dataset & ds) const {
        json o; std::string c; ds.getCompressor(c);
        z5::types::CompressionOptions co; ds.getCompressionOptions(co);
        json opts = json::object();
        for(const auto & x : co) if(x.first != "nthreads") std::visit([&](const auto & v) { opts[x.first] = v; }, x.second);
        auto list = [](const Shape & s) { std::string r = "["; for(std::size_t i = 0; i < s.size(); ++i) r += (i ? ", " : "") + std::to_string(s[i]); return r + "]"; };
        o["shape"] = list(ds.shape()); o["chunks"] = list(ds.defaultChunkShape()); o["dtype"] = dtypeName(ds.getDtype());
        o["codec"] = c; o["opts"] = canon(opts); o["shards"] = list(ds.shardShape());
        return o;
    }
    const json & meta(const json & op, const char * k = "m") const { return cfg.at("metas").at(op.at(k).get<int>() - 1); }

    void fillWith(const z5::Dataset & ds, const double x, const int how) const {
        withType(ds.getDtype(), [&](auto tag) { typedef decltype(tag) T; using namespace z5::multiarray;
            const Shape off(ds.dimension(), 0), shp = ds.shape();
            if(how == 1) { std::vector<T> v(ds.size(), T(x)); writeSubarray<T>(ds, ConstArrayView<T>(makeView(v.data(), shp)), off.begin()); }
            else if(how == 4) { std::vector<T> v(ds.size(), T(x)); writeSubarray<T>(ds, ConstArrayView<T>(makeView(v.data(), shp)), off.begin(), 3); }
            else if(how == 2) forBox(ds.chunksPerDimension(), [&](std::size_t, const Shape & c) {
                std::vector<T> v(ds.isZarr() ? ds.defaultChunkSize() : ds.getChunkSize(c), T(x)); ds.writeChunk(c, v.data()); });
            else if(how == 3 && x == meta0) forBox(ds.chunksPerDimension(), [&](std::size_t, const Shape & c) { ds.removeChunk(c); });
            else writeScalar<T>(ds, off.begin(), shp.begin(), T(x));
        });
    }
    double meta0 = 0;
    int valueOf(const z5::Dataset & ds, const json & m, bool & present) const {
        int r = -1; present = false;
        forBox(ds.chunksPerDimension(), [&](std::size_t, const Shape & c) { present = present || ds.chunkExists(c); });
        if(ds.shape() != toShape(m.at("rshape"))) return -2;
        withType(ds.getDtype(), [&](auto tag) { typedef decltype(tag) T; using namespace z5::multiarray;
            const Shape off(ds.dimension(), 0), shp = ds.shape();
            std::vector<T> v(ds.size(), T(77)); readSubarray<T>(ds, makeView(v.data(), shp), off.begin());
            const auto & vals = m.at("vals");
            for(std::size_t i = 0; i < vals.size() && r < 0; ++i) if(std::all_of(v.begin(), v.end(), [&](T y) { return y == T(vals[i].get<double>()); })) r = i;
        });
        return r;
    }
    static Path strip(const std::string & s) { Path p; std::string x; for(char c : s + "/") { if(c == '/') { if(!x.empty()) p.push_back(x); x.clear(); } else x += c; } return p; }

    int version(const json & op) const { return op.value("bad", false) ? (op.value("deco", 0) % 2 ? 1 : 7) : zf; }
    std::unique_ptr<z5::Dataset> make(const json & op, const Path & p) const {
        const json & d = meta(op); const std::size_t v = via(op, p); const std::string key = join(p, v);
        Shape shape = toShape(d.at("rshape")), chunks = toShape(d.at("rchunks")), shards = toShape(d.at("rshards"));
        std::string dtype = d.at("rdtype"), codec = d.at("rcodec"), sep = cfg.value("sep", std::string(zf == 3 ? "/" : ".")), enc = d.value("enc", std::string("default"));
        static const char * BADSEP[] = {"-", "", "..", "./", "0", " ", "//", ",", "x"};
        int zfr = zf; double fill = d.at("fill"); json opts = d.at("ropts");
        if(enc == "v2" && zf == 3) sep = ".";
        if(op.at("bad").get<bool>()) {
            const std::string b = op.at("how");
            if(b == "dtype") dtype = "nonsense"; else if(b == "rank") chunks.push_back(1); else if(b == "zero") chunks.assign(shape.size(), 0);
            else if(b == "codec") codec = "nonsense"; else if(b == "codecfmt") codec = zf == 3 ? "bzip2" : zarr ? "xz" : "nope";
            else if(b == "shards") { shards = chunks; if(zf == 3) for(auto & s : shards) s = s > 1 ? 2 * s + 1 : 0; }
            else if(b == "shardrank") { shards = chunks; shards.push_back(1); }
            else if(b == "fill") fill = zarr ? 0.5 : 1;
            else if(b == "empty") { shape.clear(); chunks.clear(); }
            else if(b == "sep") sep = BADSEP[op.value("call", 0) + 2 * op.value("deco", 0)];
            else if(b == "version") zfr = op.value("deco", 0) % 2 ? 1 : 4;
            else if(b == "enc") enc = "nonsense";
            else if(b == "option") opts["level"] = "high";
            else throw std::logic_error("ztree: bad " + b);
        }
        return with(op, p, v, [&](const auto & g) -> std::unique_ptr<z5::Dataset> {
            const int how = op.value("call", 0);
            if(how == 0) return z5::createDataset(g, key, dtype, shape, chunks, codec, opts, fill, sep, zfr, enc, shards);
            z5::types::CompressionOptions co;
            for(const auto & o : opts.items()) {
                if(o.value().is_boolean()) co[o.key()] = o.value().get<bool>(); else if(o.value().is_string()) co[o.key()] = o.value().get<std::string>();
                else co[o.key()] = o.value().get<int>();
            }
            if(how == 1) return z5::createDataset(g, key, dtype, shape, chunks, codec, co, fill, sep, zfr, enc, shards);
            z5::DatasetMetadata m; z5::createDatasetMetadata(dtype, shape, chunks, zarr, codec, co, fill, sep, m, zfr, enc, shards);
            return z5::createDataset(g, key, m);
        });
    }

    template<class F> auto node(const json & op, const Path & p, F && f) {     // the handle that holds the attributes
        need(op, p);
        if(p.empty()) { const File h = file(op); return f(h); }
        if(isGroup(op, p)) { const Group g = group(op, p, p.size()); return f(g); }
        const std::size_t v = via(op, p);
        return with(op, p, v, [&](const auto & g) { const DsHandle h(g, join(p, v)); return f(h); });
    }
    json attrs(const json & op, const Path & p) {
        json j; node(op, p, [&](const auto & h) { z5::readAttributes(h, j); return 0; });
        if(j.is_null()) j = json::object();
        return j;
    }
    void visit(const json & op, const Path & at, const Path & rel, const std::function<bool(const Path &, bool)> & f, bool & stop) {
        std::vector<std::string> ks; Path p = at; p.insert(p.end(), rel.begin(), rel.end());
        with(op, p, p.size(), [&](const auto & g) { g.keys(ks); return 0; });
        for(const auto & k : ks) {
            Path r = rel; r.push_back(k); const bool grp = with(op, p, p.size(), [&](const auto & g) { return z5::isSubGroup(g, k); });
            if(f(r, grp)) { stop = true; return; }
            if(grp) visit(op, at, r, f, stop);
            if(stop) return;
        }
    }

    void run(const json & op, json & ev) {
        const std::string name = op.at("op");
        for(const char * k : {"mode", "path", "m", "v", "bad", "key", "stop", "src", "wc", "wt"}) if(op.contains(k)) ev[k] = op.at(k);
        if(!op.contains("path")) ev["path"] = json::array();
        if(name == "aset") {
            ev["items"] = json::array();
            for(const auto & x : op.at("items")) ev["items"].push_back({x[0], canon(cfg.at("jvals").at(x[1].get<int>()))});
        }
        const Path p = toPath(ev["path"]);
        if(name == "mkfile") { const File f = file(op); z5::createFile(f, zarr, version(op)); return; }
        if(name == "rmfile") { const File f = file(op); f.remove(); objs.clear(); ev["gone"] = !there(); return; }
        if(name == "has") { ev["val"] = has(op, p); return; }
        if(name == "isg") { ev["val"] = isGroup(op, p); return; }
        if(name == "mkgroup") { const std::size_t v = via(op, p); with(op, p, v, [&](const auto & g) { z5::createGroup(g, join(p, v), version(op)); return 0; }); return; }
        if(name == "mkds") {
            if(op.at("bad").get<bool>()) ev["badhow"] = op.at("how");
            auto ds = make(op, p); ev["om"] = observe(*ds);
            if(op.at("v").get<int>()) fillWith(*ds, meta(op).at("vals")[op.at("v").get<int>()], 0);
            objs[{op.at("mode"), p}] = std::move(ds); return;
        }
        if(name == "del") {
            need(op, p); if(p.empty()) throw std::runtime_error("root");
            if(isGroup(op, p)) group(op, p, p.size()).remove();
            else if(op.value("call", 0) == 0) { const std::size_t v = via(op, p); with(op, p, v, [&](const auto & g) { const DsHandle h(g, join(p, v)); h.remove(); return 0; }); }
            else z5::util::removeDataset(dataset(op, p), op.value("call", 0));
            objs.clear(); return;
        }
        if(name == "get") {
            need(op, p);
            if(isGroup(op, p)) ev["kind"] = "g"; else { ev["kind"] = "d"; ev["om"] = observe(dataset(op, p)); }
            if(!p.empty()) {
                const File f = file(op); const Group g = group(op, p, p.size()); ev["name"] = strip(z5::relativePath(f, g));
                if(g.isZarr() != zarr && isGroup(op, p)) ev["kind"] = "format";
            }
            return;
        }
        if(name == "keys") {
            needGroup(op, p); std::vector<std::string> ks; with(op, p, p.size(), [&](const auto & g) { g.keys(ks); return 0; });
            ev["keys"] = ks; return;
        }
        if(name == "visit") {
            needGroup(op, p); json items = json::array(); bool stop = false;
            visit(op, p, {}, [&](const Path & r, bool g) { items.push_back({r, g ? "g" : "d"}); return false; }, stop); ev["items"] = items; return;
        }
        if(name == "aset") {
            json j = json::object(); for(const auto & x : op.at("items")) j[x[0].get<std::string>()] = cfg.at("jvals").at(x[1].get<int>());
            node(op, p, [&](const auto & h) { z5::writeAttributes(h, j); return 0; }); return;
        }
        if(name == "adel") { node(op, p, [&](const auto & h) { z5::removeAttribute(h, op.at("key").get<std::string>()); return 0; }); return; }
        if(name == "aget") { ev["val"] = canon(attrs(op, p).at(op.at("key").get<std::string>())); return; }
        if(name == "ahas") { ev["val"] = attrs(op, p).contains(op.at("key").get<std::string>()); return; }
        if(name == "aall") {
            json j = attrs(op, p), items = json::array();
            if(!zarr && p.empty()) j.erase("n5");
            for(const auto & x : j.items()) items.push_back({x.key(), canon(x.value())});
            ev["items"] = items; ev["len"] = j.size(); return;
        }
        if(name == "dset") {
            const auto & ds = dataset(op, p); const json & vals = cfg.at("metas").at(op.at("mm").get<int>() - 1).at("vals");
            meta0 = vals[0]; fillWith(ds, vals[op.at("v").get<int>()], op.value("how", 0)); return;
        }
        if(name == "dget") {
            const auto & ds = dataset(op, p); bool present = false;
            ev["v"] = valueOf(ds, cfg.at("metas").at(op.at("mm").get<int>() - 1), present); ev["present"] = present; return;
        }
        throw std::logic_error("ztree: op " + name);
    }
};

int main(int argc, char ** argv) {
    if(argc < 4) return 2;
    std::ifstream in(argv[1]); const std::string outp = argv[2], scratch = argv[3]; const int tmo = argc > 4 ? atoi(argv[4]) : 60;
    { std::ofstream o(outp, std::ios::trunc); }
    std::string line; std::size_t num = 0; int hung = 0;
    while(std::getline(in, line)) {
        if(line.empty()) continue;
        const json tr = json::parse(line); ++num;
        const bool kept = tr.contains("root");
        const std::string root = kept ? tr.at("root").get<std::string>() : scratch + "/t" + std::to_string(num);
        fs::create_directories(root);
#ifdef WITH_S3
        fs::create_directory(root + "/c");            // the bucket
#endif
        const int fd = ::open(outp.c_str(), O_WRONLY | O_APPEND);
        auto emit = [&](const json & j) { const std::string s = j.dump(-1, ' ', false, json::error_handler_t::replace) + "\n"; if(::write(fd, s.data(), s.size()) < 0) _exit(3); };
        emit(json{{"begin", tr.at("id")}});
        if(hung > 1) { ::close(fd); if(!kept) fs::remove_all(root); continue; }
        const pid_t pid = fork();
        if(pid == 0) {
            ::alarm(tmo);
            Runner r; r.cfg = tr.at("cfg"); r.root = root; r.zarr = r.cfg.at("fmt") != "n5"; r.zf = r.cfg.at("fmt") == "zarr3" ? 3 : 2;
            r.path = root + "/c";
            const bool hash = tr.value("hash", false);
            try {
                for(const auto & op : tr.at("ops")) {
                    json ev; ev["op"] = op.at("op"); ev["res"] = "ok";
                    if(hash) ev["h0"] = treeHash(root);
                    try { r.run(op, ev); }
                    catch(const std::logic_error & e) { if(std::string(e.what()).rfind("ztree:", 0) == 0) throw; ev["res"] = "err"; ev["what"] = std::string(e.what()).substr(0, 120); }
                    catch(const std::exception & e) { ev["res"] = "err"; ev["what"] = std::string(e.what()).substr(0, 120); }
                    if(hash) ev["h1"] = treeHash(root);
                    emit(ev);
                }
            } catch(const std::exception & e) { emit(json{{"op", "harness"}, {"res", "err"}, {"what", e.what()}}); _exit(7); }
            r.objs.clear();
            _exit(0);
        }
        int st = 0; waitpid(pid, &st, 0);
        if(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) ++hung;              // the specification judges what there is
        if(WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 7))
            emit(json{{"op", "crash"}, {"res", "crash"}, {"path", json::array()}, {"sig", WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st)}});
        ::close(fd);
        if(!kept && root.rfind(scratch + "/t", 0) == 0) fs::remove_all(root);
    }
    return 0;
}
