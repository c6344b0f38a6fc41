// Runs the multithreaded parts of cppcore under a deterministic scheduler and records what happens.
#include "sched.hpp"
#include "common.hpp"
#include <set>
#include "kpm/default/Compute.hpp"
#include "detail/thread.hpp"

using namespace cpb;

namespace {

struct Log {
    json events = json::array();
    void add(char const* kind, long who, long value, json extra = 0) {
        events.push_back({{"k", kind}, {"t", who}, {"v", value}, {"x", extra}});
    }
};

/// An item which is moved from is recognized
struct Item {
    long value = -1;
    Item() = default;
    explicit Item(long v) : value(v) {}
    Item(Item const&) = default;
    Item& operator=(Item const&) = default;
    Item(Item&& o) : value(o.value) { o.value = -2; }
    Item& operator=(Item&& o) { value = o.value; o.value = -2; return *this; }
};

void run_queue(json const& o, Log& log) {
    auto const max = o.at("max").get<long>();
    auto q = max > 0 ? std::make_shared<detail::Queue<Item>>(static_cast<std::size_t>(max))
                     : std::make_shared<detail::Queue<Item>>();
    auto threads = std::vector<std::thread>();
    auto n = 0L;
    for (auto const& program : o.at("programs")) {
        ++n;
        threads.emplace_back([q, program, n, &log] {
            for (auto const& p : program) {
                auto const op = p.at(0).get<std::string>();
                if (op == "addp") {
                    log.add("call", n, 0, op); q->add_producer(); log.add("ret", n, 0, op);
                } else if (op == "remp") {
                    log.add("call", n, 0, op); q->remove_producer(); log.add("ret", n, 0, op);
                } else if (op == "push") {
                    auto const item = Item(p.at(1));
                    log.add("call", n, item.value, op); q->push(item); log.add("ret", n, 0, op);
                } else if (op == "pushm") {
                    auto item = Item(p.at(1));
                    log.add("call", n, item.value, "push"); q->push(std::move(item)); log.add("ret", n, 0, "push");
                } else if (op == "pop" || op == "popall") {
                    for (;;) {
                        log.add("call", n, 0, "pop");
                        auto maybe = q->pop();
                        auto const valid = static_cast<bool>(maybe);
                        log.add("ret", n, valid ? maybe.get().value : -1, "pop");
                        if (op == "pop" || !valid) { break; }
                    }
                }
            }
        });
    }
    for (auto& t : threads) { t.join(); }
}

struct Value {
    long id = -1;
    long computed = 0;
};

void run_for(json const& o, Log& log) {
    auto const size = o.at("size").get<std::size_t>();
    // as many jobs as there are threads wait for each other
    auto const together = o.value("barrier", false) ? std::min(size, o.at("threads").get<std::size_t>()) : 0;
    auto arrived = std::size_t{0};
    parallel_for(
        size, o.at("threads").get<std::size_t>(), o.at("queue").get<std::size_t>(),
        [&](std::size_t id) {
            log.add("produce", 0, static_cast<long>(id));
            sched::point();
            log.add("produced", 0, static_cast<long>(id));
            return Value{static_cast<long>(id), 0};
        },
        [&](Value& v) {
            log.add("compute", 0, v.id, v.computed);
            sched::point();
            if (static_cast<std::size_t>(v.id) < together) {
                ++arrived;
                sched::wait_until([&] { return arrived >= together; });
            }
            ++v.computed;
            log.add("computed", 0, v.id, v.computed);
        },
        [&](Value v, std::size_t id) {
            log.add("retire", static_cast<long>(id), v.id, v.computed);
            sched::point();
            log.add("retired", static_cast<long>(id), v.id, v.computed);
        });
    log.add("return", 0, 0);
}

void run_pool(json const& o, Log& log) {
    auto begun = std::map<long, long>(); // barrier -> jobs which have got there
    auto pool = std14::make_unique<ThreadPool>(o.at("threads").get<idx_t>());
    auto& p = *pool; // (also while it is destroyed)
    std::function<void(json const&)> add = [&](json const& job) {
        log.add("add", 0, job.at("id"));
        p.add([&, job]() {
            auto const id = job.at("id").get<long>();
            log.add("begin", 0, id);
            sched::point();
            if (job.contains("barrier")) {
                auto const b = job.at("barrier").get<long>(), n = job.at("of").get<long>();
                ++begun[b];
                sched::wait_until([&, b, n] { return begun[b] >= n; });
            }
            for (auto const& nested : job.value("nested", json::array())) { add(nested); }
            log.add("end", 0, id);
        });
        log.add("added", 0, job.at("id"));
    };
    auto adders = std::vector<std::thread>();
    for (auto const& jobs : o.at("adders")) {
        adders.emplace_back([&add, jobs] { for (auto const& job : jobs) { add(job); } });
    }
    for (auto const& job : o.at("jobs")) { add(job); }
    for (auto& t : adders) { t.join(); }
    for (auto i = 0L; i < o.at("joins").get<long>(); ++i) {
        pool->join();
        log.add("joined", 0, 0);
    }
    pool.reset();
    log.add("return", 0, 0);
}

template<class scalar_t>
Hamiltonian chain(idx_t n) {
    auto m = std::make_shared<SparseMatrixX<scalar_t>>(n, n);
    for (auto i = idx_t{0}; i + 1 < n; ++i) {
        m->insert(i, i + 1) = scalar_t{1};
        m->insert(i + 1, i) = scalar_t{1};
    }
    m->makeCompressed();
    return Hamiltonian(SparseMatrixRC<scalar_t>(m));
}
Hamiltonian chain(std::string const& type, idx_t n) {
    if (type == "f") { return chain<float>(n); }
    if (type == "d") { return chain<double>(n); }
    if (type == "cf") { return chain<std::complex<float>>(n); }
    return chain<std::complex<double>>(n);
}

struct MakeVector {
    idx_t size;
    long n;
    template<class scalar_t>
    var::complex<VectorX> operator()(var::tag<scalar_t>) const {
        auto r0 = VectorX<scalar_t>::Zero(size).eval();
        r0[0] = static_cast<num::get_real_t<scalar_t>>(n);
        return r0;
    }
};

/// The vectors are 1, 2, 3... times a unit vector: their first moment is their number squared / 2
struct Numbers {
    template<class scalar_t>
    json operator()(ArrayX<scalar_t> const& a) const {
        return json::array({drv::to_int(std::sqrt(2 * std::abs(a[0])))});
    }
    template<class scalar_t>
    json operator()(ArrayXX<scalar_t> const& a) const {
        auto r = json::array();
        for (auto i = 0; i < a.cols(); ++i) { r.push_back(drv::to_int(std::sqrt(2 * std::abs(a(0, i))))); }
        return r;
    }
};

void run_batch(json const& o, Log& log) {
    auto const h = chain(o.at("type").get<std::string>(), 3);
    auto const algorithm = kpm::AlgorithmConfig{o.value("size", false), o.value("interleaved", false)};
    auto oh = kpm::OptimizedHamiltonian(h, o.value("ell", false) ? kpm::MatrixFormat::ELL : kpm::MatrixFormat::CSR,
                                        algorithm.reorder());
    oh.optimize_for({0, 0}, kpm::Scale<>(-2, 2));
    auto const total = o.at("vectors").get<idx_t>();
    auto const compute = kpm::DefaultCompute(o.at("threads").get<idx_t>(), [&](idx_t delta, idx_t of) {
        log.add("progress", 0, delta, of);
    });
    auto made = 0L;
    auto const starter = kpm::Starter([&](var::scalar_tag tag) {
        auto const n = ++made;
        log.add("make", 0, n);
        sched::point();
        log.add("made", 0, n);
        return var::apply_visitor(MakeVector{h.rows(), n}, tag);
    }, h.rows());
    auto moments = kpm::BatchDiagonalMoments(6, total,
        [&](kpm::BatchData&, kpm::BatchData const& data, idx_t idx, idx_t of) {
            log.add("collect", static_cast<long>(of), idx, var::apply_visitor(Numbers{}, data));
            sched::point();
            log.add("collected", 0, idx);
        });
    compute.moments(&moments, starter, algorithm, oh);
    log.add("return", 0, 0);
}

json run_op(json const& o) {
    auto const op = o.at("op").get<std::string>();
    auto const& how = o.at("sched");
    auto& c = sched::self().choose;
    c = sched::Chooser();
    auto const kind = how.at("kind").get<std::string>();
    c.kind = kind == "dfs" ? sched::Chooser::dfs : kind == "pct" ? sched::Chooser::pct : sched::Chooser::random;
    c.rng.seed(how.value("seed", 1u));
    c.max_spurious = how.value("spurious", 0);
    c.max_preemptions = how.value("preempt", 0);
    auto const max = how.at("max").get<long>(), most = how.at("distinct").get<long>();
    auto runs = json::array();
    auto seen = std::set<std::string>();
    auto schedules = 0L, stuck = 0L;
    for (; schedules < max && static_cast<long>(runs.size()) < most && stuck < 50; ++schedules) {
        c.keep = std::uniform_real_distribution<>(0, 0.95)(c.rng);
        c.changes.clear();
        for (auto i = 0; i < how.value("depth", 3); ++i) { c.changes.push_back(1 + static_cast<long>(c.rng() % 120)); }
        // a run which gets stuck still refers to its log
        auto log = std::make_shared<Log>();
        auto const ok = sched::run([&o, &op, log] {
            if (op == "queue") { run_queue(o, *log); }
            else if (op == "for") { run_for(o, *log); }
            else if (op == "pool") { run_pool(o, *log); }
            else if (op == "batch") { run_batch(o, *log); }
            else { std::cerr << "driver: unknown op " << op << "\n"; std::exit(2); }
        });
        if (!ok) {
            ++stuck;
            static auto keep = std::vector<std::shared_ptr<Log>>();
            keep.push_back(log);
        }
        auto const end = ok ? "done" : sched::self().endless ? "endless" : "stuck";
        auto run = json{{"log", log->events}, {"end", end}};
        if (seen.insert(run.dump()).second) { runs.push_back(run); }
        if (c.kind == sched::Chooser::dfs && !c.advance()) { ++schedules; break; }
    }
    return {{"runs", runs}, {"schedules", schedules}};
}

json run(json const& sc) {
    auto results = json::array();
    for (auto const& o : sc.at("ops")) {
        try {
            results.push_back({{"res", "ok"}, {"obs", run_op(o)}});
        } catch (json::exception const& e) {
            std::cerr << "driver: " << e.what() << "\n";
            std::exit(2);
        }
    }
    return {{"id", sc.at("id")}, {"results", results}};
}

} // namespace

int main(int argc, char** argv) { return drv::main_loop(argc, argv, run); }
