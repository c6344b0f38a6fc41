T = "cppcore/include/detail/thread.hpp"
THREADS = r'''
#include <cstdio>
#include <cstdlib>
#include <atomic>
#include <chrono>
#include <functional>
#include <memory>
#include <mutex>
#include <limits>
#include <vector>
#include "numeric/dense.hpp"
#include "detail/thread.hpp"
using namespace cpb;
#define REQUIRE(x) do { if (!(x)) { std::printf("failed: %s (line %d)\n", #x, __LINE__); std::fflush(stdout); std::_Exit(1); } } while (0)
inline void nap(int ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }
template<class F> bool soon(F f) { for (auto i = 0; i < 300; ++i) { if (f()) return true; nap(10); } return false; }
'''
seed("S21-producer-notified-only-when-full", "C17",
     [(T, """        q.pop();
        lk.unlock();
        production_cv.notify_one();
""", """        auto const was_full = q.size() == max_size;
        q.pop();
        lk.unlock();
        if (was_full) { production_cv.notify_one(); } // nobody waits otherwise
""")],
     THREADS + r'''
int main() {
    // the consumer is faster than the producers are woken up: repeat it
    for (auto n = 0; n < 300; ++n) {
        auto q = std::make_shared<detail::Queue<int>>(2);
        auto done = std::make_shared<std::atomic<int>>(0);
        q->push(1); q->push(2);
        for (auto i = 0; i < 4; ++i) std::thread([=] { q->push(3 + i); ++*done; }).detach();
        nap(2);
        q->pop(); q->pop(); // two of the producers can go on
        REQUIRE(soon([&] { return *done >= 2; }));
        q->pop(); q->pop();
        REQUIRE(soon([&] { return *done >= 4; }));
    }
    std::_Exit(0);
}
''',
     "several producers which wait for a full queue and two items taken out before the first of them runs",
     "a producer waits forever though the queue has room (lost wakeup)")

seed("S22-consumer-notified-only-when-empty", "C17",
     [(T, """        q.push(std::move(item));
        lk.unlock();
        consumption_cv.notify_one();
""", """        auto const was_empty = q.empty();
        q.push(std::move(item));
        lk.unlock();
        if (was_empty) { consumption_cv.notify_one(); } // nobody waits otherwise
""")],
     THREADS + r'''
int main() {
    for (auto n = 0; n < 300; ++n) {
        auto pool = new ThreadPool(4);
        auto begun = std::make_shared<std::atomic<int>>(0);
        nap(2);
        // jobs which wait for each other: there are threads enough
        for (auto i = 0; i < 4; ++i) pool->add([=] { ++*begun; while (*begun < 4) nap(1); });
        REQUIRE(soon([&] { return *begun >= 4; }));
        pool->join();
    }
    std::_Exit(0);
}
''',
     "two items added before the first waiting consumer runs",
     "a consumer waits though there is an item (lost wakeup)")

seed("S23-results-closed-between-jobs", "C17",
     [(T, """            detail::QueueGuard<Job> guard{retirement_queue};
            while (auto maybe_job = work_queue.pop()) {
                auto job = maybe_job.get();
""", """            while (auto maybe_job = work_queue.pop()) {
                detail::QueueGuard<Job> guard{retirement_queue};
                auto job = maybe_job.get();
""")],
     THREADS + r'''
int main() {
    for (auto threads : {1, 3}) {
        auto retired = 0;
        auto done = false;
        std::thread([&] {
            parallel_for(6, threads, 1, [](size_t id) { nap(20); return static_cast<int>(id); },
                         [](int& v) { v *= 2; }, [&](int v, size_t id) { if (v == 2 * static_cast<int>(id)) ++retired; });
            done = true;
        }).detach();
        REQUIRE(soon([&] { return done; }));
        REQUIRE(retired == 6);
    }
    std::_Exit(0);
}
''',
     "a moment in which every result so far has been computed and the next job isn't produced yet",
     "the reporting thread stops and later results are never retired")

seed("S24-first-producer-closes", "C17",
     [(T, """        num_producers--;
        if (num_producers <= 0)
            is_closed = true;
""", """        is_closed = --num_producers <= 1;
""")],
     THREADS + r'''
int main() {
    auto q = std::make_shared<detail::Queue<int>>();
    q->add_producer(); q->add_producer();
    q->remove_producer();
    auto got = std::make_shared<std::atomic<int>>(0);
    std::thread([=] { auto m = q->pop(); *got = m ? m.get() : -1; }).detach();
    nap(50);
    q->push(7);
    REQUIRE(soon([&] { return *got != 0; }));
    REQUIRE(*got == 7);
    std::_Exit(0);
}
''',
     "two producers, one of which leaves while the queue is empty and the other one has more to add",
     "the queue is closed while a producer is left")

kpm_seed("S25-index-read-before-lock", "C17",
     [(C + "src/kpm/default/Compute.cpp", """        starter.lock();
        auto const idx = starter.count;
""", """        auto const idx = starter.count;
        starter.lock();
""")],
     r'''
#include <thread>
#include <chrono>
#include <set>
int main() {
    auto const h = make_ham<double>(ring(6));
    auto const a = kpm::AlgorithmConfig{false, false};
    auto oh = kpm::OptimizedHamiltonian(h, kpm::MatrixFormat::CSR, false);
    oh.optimize_for({0, 0}, kpm::Scale<>(-4, 4));
    auto const starter = kpm::Starter([&](var::scalar_tag) {
        std::this_thread::sleep_for(std::chrono::milliseconds(30));
        return var::complex<VectorX>{VectorX<double>(VectorX<double>::Ones(6))};
    }, 6);
    auto indices = std::multiset<idx_t>();
    auto m = kpm::BatchDiagonalMoments(8, 24, [&](kpm::BatchData&, kpm::BatchData const&, idx_t idx, idx_t) { indices.insert(idx); });
    kpm::DefaultCompute(3).moments(&m, starter, a, oh);
    for (auto i : indices) REQUIRE(indices.count(i) == 1);
    REQUIRE(indices.size() > 1);
}
''',
     "two threads, one of which asks for a starter vector while the other one makes one",
     "two vectors get the same index: one column of the result is overwritten and another is never written")

kpm_seed("S26-results-added-without-lock", "C17",
     [(C + "include/kpm/Moments.hpp", """        std::unique_lock<std::mutex> lk(*mutex);
        collect(data, new_data, idx, num_vectors);
""", """        auto const update = [&]() { collect(data, new_data, idx, num_vectors); };
        if (mutex->try_lock()) {
            std::unique_lock<std::mutex> lk(*mutex, std::adopt_lock);
            update();
        } else {
            update();
        }
""")],
     r'''
#include <thread>
#include <chrono>
#include <atomic>
int main() {
    auto const h = make_ham<double>(ring(6));
    auto oh = kpm::OptimizedHamiltonian(h, kpm::MatrixFormat::CSR, false);
    oh.optimize_for({0, 0}, kpm::Scale<>(-4, 4));
    auto const starter = kpm::Starter([&](var::scalar_tag) { return var::complex<VectorX>{VectorX<double>(VectorX<double>::Ones(6))}; }, 6);
    std::atomic<int> inside{0}, most{0};
    auto m = kpm::BatchDiagonalMoments(8, 6, [&](kpm::BatchData&, kpm::BatchData const&, idx_t, idx_t) {
        if (++inside > 1) most = 2;
        std::this_thread::sleep_for(std::chrono::milliseconds(20));
        --inside;
    });
    kpm::DefaultCompute(3).moments(&m, starter, kpm::AlgorithmConfig{false, false}, oh);
    REQUIRE(most == 0);
}
''',
     "two threads which finish their vectors at the same time",
     "both change the accumulated result at once")
