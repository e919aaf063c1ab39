// Drives z5::util::ThreadPool and parallel_foreach and writes the serialised history of calls.
// pool SCRIPTS OUT SCRATCH TIMEOUT ; one forked child per script; every event is one write(2).
#include <nlohmann/json.hpp>
#include <z5/util/threadpool.hxx>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <forward_list>
#include <list>
#include <deque>
#include <map>
#include <sstream>
#include <iostream>
#include <random>
#include <chrono>
#include <memory>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include "shake.hxx"

using json = nlohmann::json;

// ------------------------------------------------------------------------------- history
static int g_out = -1;
static void emit(const json & e) {
    const std::string s = e.dump() + "\n";
    if(write(g_out, s.data(), s.size()) != ssize_t(s.size())) _exit(3);
}

struct Boom : std::runtime_error { int k; explicit Boom(int k) : std::runtime_error("boom"), k(k) {} };
struct Odd { int k; };                      // not derived from std::exception
static void boom(const int k) {
    switch(k % 3) { case 0: throw Boom(k); case 1: throw Odd{k}; default: throw int(k); }
}
template<class F> static json outcome(F && f) {
    try { return json{{"res", "val"}, {"v", f()}}; }
    catch(const Boom & b) { return json{{"res", "exc"}, {"v", b.k}}; }
    catch(const Odd & b) { return json{{"res", "exc"}, {"v", b.k}}; }
    catch(const int & b) { return json{{"res", "exc"}, {"v", b}}; }
    catch(const std::future_error & e) {
        return json{{"res", e.code() == std::future_errc::broken_promise ? "broken" : "error"}, {"v", -1}}; }
    catch(const std::exception & e) { return json{{"res", "error"}, {"v", -1}, {"what", e.what()}}; }
    catch(...) { return json{{"res", "unknown"}, {"v", -1}}; }
}

struct Task {
    int k; bool thr, gated; unsigned work;
    std::atomic<int> st{0};                 // 0 submitted 1 started 2 ended
    std::atomic<bool> open{false};
    std::future<int> fi; std::future<void> fv; bool isVoid = false;
};
static void busy(const unsigned n) {
    if(n >= 1000) { struct timespec ts = {0, long(n)}; nanosleep(&ts, nullptr); return; }
    for(volatile unsigned i = 0; i < n * 20; ++i) {}
}
static void body(Task & t, const int tid) {
    emit({{"op", "start"}, {"c", 0}, {"k", t.k}, {"tid", tid}});
    t.st = 1;
    while(t.gated && !t.open) { struct timespec ts = {0, 50000}; nanosleep(&ts, nullptr); }
    busy(t.work);
    emit({{"op", "end"}, {"c", 0}, {"k", t.k}});
    t.st = 2;
    if(t.thr) boom(t.k);
}

struct World {
    std::unique_ptr<z5::util::ThreadPool> pool;
    int n = 0;
    std::map<int, std::unique_ptr<Task>> tasks;      // of the current pool
    std::map<int, std::unique_ptr<std::thread>> threads;
    std::atomic<int> waiting{0};
    std::atomic<bool> closing{false}, closed{false};
};

// ---------------------------------------------------------------------------------- loops
struct Bulk {
    std::deque<std::atomic<unsigned>> runs;
    std::deque<std::atomic<bool>> busy;
    std::atomic<long> active{0}, badtid{0}, foreign{0};
    int bound;
    Bulk(const std::size_t items, const int b): runs(items), busy(b), bound(b) {
        for(auto & x : runs) x = 0;
        for(auto & x : busy) x = false;
    }
};
static std::shared_ptr<Bulk> bulk;
template<class CALL> static void runLoop(const json & op, const int c, CALL && call) {
    // all that the function touches lives in this frame
    std::vector<unsigned> frame(64, 7u);
    std::vector<char> thr;
    for(const auto & x : op.at("thr")) { const std::size_t k = x.get<std::size_t>(); if(thr.size() <= k) thr.resize(k + 1); thr[k] = 1; }
    const unsigned work = op.value("work", 0u);
    std::atomic<unsigned> sum{0};
    auto f = [&](const int tid, const int64_t item) {
        emit({{"op", "start"}, {"c", c}, {"k", item}, {"tid", tid}});
        sum += frame[std::size_t(item) % 64];
        busy(work >= 1000 ? work / 2 + (shake::rnd() % work) : work);
        sum += frame[(std::size_t(item) + 1) % 64];
        emit({{"op", "end"}, {"c", c}, {"k", item}});
        if(std::size_t(item) < thr.size() && thr[std::size_t(item)]) boom(int(item));
    };
    if(!op.value("bulk", false)) {
        call(f);
        return;
    }
    // many items: what happened is counted instead of listed
    auto & b = *bulk;
    auto g = [&frame, &thr, &sum, &b](const int tid, const int64_t item) {
        ++b.active;
        const bool idok = tid >= 0 && tid < b.bound && !b.busy[tid].exchange(true);
        const bool itemok = item >= 0 && std::size_t(item) < b.runs.size();
        if(!idok) ++b.badtid;
        if(!itemok) ++b.foreign; else ++b.runs[item];
        sum += frame[std::size_t(item) % 64];
        if(item % 97 == 0) std::this_thread::yield();
        const bool t = itemok && std::size_t(item) < thr.size() && thr[std::size_t(item)];
        if(idok) b.busy[tid] = false;
        --b.active;
        if(t) boom(int(item));
    };
    call(g);
}
#ifdef POOL_FORWARD
#define FORWARD_KINDS 1
#else
#define FORWARD_KINDS 0
#endif
template<class WHERE> static json loopOn(const json & op, const int c, WHERE && where) {
    const std::string it = op.value("iter", std::string("count"));
    const long items = op.at("items").get<long>();
    const long hint = op.value("hint", false) ? items : 0;
    std::vector<int64_t> v(items);
    for(long i = 0; i < items; ++i) v[i] = i;
    json r = outcome([&]() {
        runLoop(op, c, [&](auto & f) {
            namespace u = z5::util;
            if(it == "count") u::parallel_foreach(where, std::ptrdiff_t(items), f);
            else if(it == "vector") u::parallel_foreach(where, v.begin(), v.end(), f, hint);
            else if(it == "cptr") u::parallel_foreach(where, static_cast<const int64_t *>(v.data()), static_cast<const int64_t *>(v.data()) + items, f, hint);
            else if(it == "deque") { std::deque<int> d(v.begin(), v.end()); u::parallel_foreach(where, d.begin(), d.end(), f, hint); }
            else if(it == "input") {
                std::stringstream ss; for(auto x : v) ss << x << ' ';
                u::parallel_foreach(where, std::istream_iterator<int64_t>(ss), std::istream_iterator<int64_t>(), f, hint);
            }
#if FORWARD_KINDS
            else if(it == "list") { std::list<int64_t> d(v.begin(), v.end()); u::parallel_foreach(where, d.begin(), d.end(), f, hint); }
            else if(it == "flist") { std::forward_list<int64_t> d(v.begin(), v.end()); u::parallel_foreach(where, d.cbegin(), d.cend(), f, hint); }
#endif
            else throw std::logic_error("iterator kind");
        });
        return 0;
    });
    if(r["res"] == "val") r["res"] = "ok";
    return r;
}
static void doLoop(World & w, const json & op, const int hw) {
    const int c = op.at("c").get<int>();
    const bool own = op.value("own", true);
    json b = {{"op", "loop0"}, {"c", c}, {"own", own}, {"n", op.value("n", 0)}, {"hw", hw}, {"items", op.at("items")}, {"thr", op.at("thr")}};
    emit(b);
    json r = own ? loopOn(op, c, op.at("n").get<int64_t>()) : loopOn(op, c, *w.pool);
    r["op"] = "loop1"; r["c"] = c;
    emit(r);
}

// a loop over many items, alone: one event
static void doBulk(World & w, const json & op, const int hw) {
    const bool own = op.value("own", true);
    const long items = op.at("items").get<long>();
    const int n = op.value("n", 0);
    const int threads = own ? (n >= 0 ? n : n == -2 ? hw / 2 : hw) : int(w.pool->nThreads());
    bulk = std::make_shared<Bulk>(items, threads < 1 ? 1 : threads);
    json o = op;
    o["bulk"] = true;
    json r = own ? loopOn(o, 0, int64_t(n)) : loopOn(o, 0, *w.pool);
    const long active = bulk->active;
    auto total = []() { long t = bulk->foreign; for(auto & x : bulk->runs) t += long(x); return t; };
    const long before = total();
    busy(300);
    long none = 0, more = 0;
    for(auto & x : bulk->runs) { none += x == 0; more += x > 1; }
    r["op"] = "bulk"; r["own"] = own; r["items"] = items; r["thr"] = op.at("thr");
    r["none"] = none; r["more"] = more; r["badtid"] = long(bulk->badtid); r["foreign"] = long(bulk->foreign);
    r["late"] = active + total() - before;
    emit(r);
}

// all work that can be done has been done
static bool settled(World & w) {
    int running = 0, queued = 0;
    for(auto & t : w.tasks) {
        const int s = t.second->st;
        if(s == 1) { if(!t.second->gated || t.second->open) return false; ++running; }
        if(s == 0) ++queued;
    }
    if(w.closed) return true;
    if(w.closing) return running > 0;
    if(queued && running < w.n) return false;
    return queued + running > 0 || w.waiting == 0;
}

static void child(const json & script) {
    World w;
    const int hw = int(std::thread::hardware_concurrency());
    shake::seed = script.value("shake", 0u);
    int nextWaiter = 0;
    auto spawn = [&](const int id, auto && f) { w.threads[id] = std::make_unique<std::thread>(f); };
    auto join = [&](const int id) { auto i = w.threads.find(id); if(i != w.threads.end()) { i->second->join(); w.threads.erase(i); } };
    for(const auto & op : script.at("ops")) {
        const std::string o = op.at("op");
        if(o == "pool") {
            const int n = op.at("n").get<int>();
            w.tasks.clear(); w.closing = false; w.closed = false;
            if(op.value("opt", false)) w.pool = std::make_unique<z5::util::ThreadPool>(z5::util::ParallelOptions(n));
            else w.pool = std::make_unique<z5::util::ThreadPool>(n);
            w.n = int(w.pool->nThreads());
            emit({{"op", "pool"}, {"n", n}, {"hw", hw}, {"got", w.n}});
        } else if(o == "submit") {
            auto t = std::make_unique<Task>();
            t->k = int(w.tasks.size()) + 1; t->thr = op.at("thr").get<bool>(); t->gated = op.value("gated", false); t->work = op.value("work", 0u);
            Task * p = t.get();
            w.tasks[t->k] = std::move(t);
            emit({{"op", "sub0"}, {"k", p->k}, {"thr", p->thr}});
            if(op.value("void", false)) { p->isVoid = true; p->fv = w.pool->enqueue([p](int tid) { body(*p, tid); }); }
            else p->fi = w.pool->enqueueReturning([p](int tid) { body(*p, tid); return p->k; });
            emit({{"op", "sub1"}, {"k", p->k}});
        } else if(o == "release") {                // the i-th running task
            int i = op.at("i").get<int>();
            for(auto & t : w.tasks) if(t.second->st == 1 && !t.second->open && --i == 0) { t.second->open = true; break; }
        } else if(o == "wait") {
            const int id = 1000 + ++nextWaiter;
            ++w.waiting;
            const std::string name = "w" + std::to_string(id);
            if(op.value("sync", false)) { emit({{"op", "wait0"}, {"w", name}}); w.pool->waitFinished(); emit({{"op", "wait1"}, {"w", name}}); --w.waiting; }
            else {
                std::atomic<bool> begun{false};
                spawn(id, [&w, name, &begun] { emit({{"op", "wait0"}, {"w", name}}); begun = true; w.pool->waitFinished(); emit({{"op", "wait1"}, {"w", name}}); --w.waiting; });
                while(!begun) sched_yield();
            }
        } else if(o == "settle") {
            const auto t0 = std::chrono::steady_clock::now();
            while(!settled(w)) {
                struct timespec ts = {0, 100000}; nanosleep(&ts, nullptr);
                if(std::chrono::steady_clock::now() - t0 > std::chrono::seconds(op.value("patience", 12))) { emit({{"op", "stall"}}); _exit(77); }
            }
        } else if(o == "get") {
            for(auto & t : w.tasks) {
                if(op.contains("k") && op.at("k").get<int>() != t.first) continue;
                if(!t.second->fi.valid() && !t.second->fv.valid()) continue;
                json r = outcome([&]() { if(t.second->isVoid) { t.second->fv.get(); return t.second->k; } return t.second->fi.get(); });
                r["op"] = "get"; r["k"] = t.first;
                emit(r);
            }
        } else if(o == "openall") { for(auto & t : w.tasks) t.second->open = true;
        } else if(o == "joinall") { while(!w.threads.empty()) join(w.threads.begin()->first);
        } else if(o == "close") {
            if(!w.pool || w.closing) continue;
            emit({{"op", "close0"}});
            if(op.value("async", false)) {
                w.closing = true;
                spawn(2000, [&w] { w.pool.reset(); emit({{"op", "close1"}}); w.closed = true; });
                struct timespec ts = {0, long(op.value("pause", 1) * 1000000)}; nanosleep(&ts, nullptr);
            } else { w.pool.reset(); emit({{"op", "close1"}}); w.closed = true; w.closing = true; }
        } else if(o == "bulk") doBulk(w, op, hw);
        else if(o == "loop") doLoop(w, op, hw);
        else if(o == "loopa") spawn(3000 + op.at("c").get<int>(), [&w, op, hw] { doLoop(w, op, hw); });
        else if(o == "joinloop") join(3000 + op.at("c").get<int>());
        else { emit({{"op", "harness"}, {"what", "op " + o}}); _exit(0); }
    }
    emit({{"op", "over"}});
    w.tasks.size();
    _exit(0);                                   // the world is not taken down: its pool may have lost threads
}

int main(int argc, char ** argv) {
    if(argc < 5) return 2;
    std::ifstream in(argv[1]);
    const int timeout = std::atoi(argv[4]);
    g_out = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    if(g_out < 0) return 2;
    std::string line;
    int stuck = 0;
    while(std::getline(in, line)) {
        const json s = json::parse(line);
        emit({{"begin", s.at("id")}});
        if(stuck >= 3) continue;                 // enough has been seen
        const pid_t p = fork();
        if(p == 0) { child(s); _exit(0); }
        int st = 0; bool hang = true;
        for(int i = 0; i < timeout * 100; ++i) {
            if(waitpid(p, &st, WNOHANG) == p) { hang = false; break; }
            struct timespec ts = {0, i < 200 ? 500000 : 10000000}; nanosleep(&ts, nullptr);
        }
        if(hang) { kill(p, SIGKILL); waitpid(p, &st, 0); emit({{"op", "hang"}}); ++stuck; }
        else if(WIFSIGNALED(st)) emit({{"op", "crash"}, {"sig", WTERMSIG(st)}});
        else if(WEXITSTATUS(st) == 77) ++stuck;
        else if(WEXITSTATUS(st)) emit({{"op", "crash"}, {"sig", 1000 + WEXITSTATUS(st)}});
    }
    return 0;
}
