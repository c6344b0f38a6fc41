// A deterministic scheduler below the C++ thread library: the pthread functions which libstdc++ uses
// are replaced (the executable's symbols come first) and every thread is a coroutine of one real thread.
// Which thread runs next, which waiter is notified and which waiter wakes up spuriously are choices of
// a schedule: random ones, random priorities (PCT), or all of them with a bounded number of preemptions.
#pragma once
#ifndef _GNU_SOURCE
# define _GNU_SOURCE
#endif
#include <algorithm>
#include <cerrno>
#include <cstdint>
#include <cstdlib>
#include <dlfcn.h>
#include <functional>
#include <map>
#include <memory>
#include <pthread.h>
#include <random>
#include <sched.h>
#include <sys/mman.h>
#include <time.h>
#include <ucontext.h>
#include <vector>

namespace sched {

constexpr std::size_t stack_size = 512 * 1024;
enum class State { ready, mutex, cond, join, until, done };

struct Task {
    ucontext_t context;
    void* stack = nullptr;
    std::function<void()> body;
    State state = State::ready;
    void* object = nullptr;        // the mutex or condition variable it waits for
    std::size_t joined = 0;        // the task it waits for
    std::function<bool()> until;
    bool timed = false;            // a wait which may time out
    bool timed_out = false;
    void* result = nullptr;
    double priority = 0;
};

/// Chooses between the alternatives of a schedule
struct Chooser {
    enum Kind { random, pct, dfs } kind = random;
    std::mt19937 rng;
    double keep = 0;               // random: probability to let the running task go on
    int spurious = 0;              // spurious wakeups left
    int preemptions = 0;           // dfs: preemptions left in this schedule
    int max_preemptions = 0, max_spurious = 0;
    long step = 0;
    std::vector<long> changes;     // pct: steps at which the priorities change
    std::vector<std::pair<int, int>> path; // dfs: (choice, number of alternatives)
    std::size_t depth = 0;

    int pick(int n) {
        if (n <= 1) { return 0; }
        if (kind != dfs) { return static_cast<int>(rng() % static_cast<unsigned>(n)); }
        if (depth == path.size()) { path.emplace_back(0, n); }
        auto& p = path[depth++];
        p.second = n;
        return std::min(p.first, n - 1);
    }
    /// dfs: go on to the next schedule, false if there is none
    bool advance() {
        path.resize(depth);
        while (!path.empty() && path.back().first + 1 >= path.back().second) { path.pop_back(); }
        if (path.empty()) { return false; }
        ++path.back().first;
        return true;
    }
};

struct Scheduler {
    std::vector<std::unique_ptr<Task>> tasks;
    std::map<void*, std::size_t> owner;   // locked mutexes
    ucontext_t main;
    std::size_t current = 0;
    bool active = false;
    bool stuck = false;
    Chooser choose;
    std::vector<void*> stacks;
    std::size_t max_steps = 200000;
    bool endless = false;
};

inline Scheduler& self() { static auto* s = new Scheduler(); return *s; }

inline bool runnable(Task const& t) {
    auto& s = self();
    switch (t.state) {
        case State::ready: return true;
        case State::mutex: return s.owner.count(t.object) == 0;
        case State::join: return s.tasks[t.joined]->state == State::done;
        case State::until: return t.until();
        case State::cond: return t.timed || s.choose.spurious > 0;
        default: return false;
    }
}

/// Back to the scheduler: the present task goes on when it is chosen again
inline void switch_out() {
    auto& s = self();
    swapcontext(&s.tasks[s.current]->context, &s.main);
}
inline void point() {
    if (self().active) { switch_out(); }
}

inline void trampoline() {
    auto& s = self();
    s.tasks[s.current]->body();
    s.tasks[s.current]->state = State::done;
    switch_out();
    std::abort();
}

inline std::size_t spawn(std::function<void()> body) {
    auto& s = self();
    auto t = std::make_unique<Task>();
    t->body = std::move(body);
    if (!s.stacks.empty()) { t->stack = s.stacks.back(); s.stacks.pop_back(); }
    else {
        t->stack = mmap(nullptr, stack_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (t->stack == MAP_FAILED) { std::abort(); }
    }
    getcontext(&t->context);
    t->context.uc_stack.ss_sp = t->stack;
    t->context.uc_stack.ss_size = stack_size;
    t->context.uc_link = &s.main;
    t->priority = 1 + std::uniform_real_distribution<>(0, 1)(s.choose.rng);
    makecontext(&t->context, trampoline, 0);
    s.tasks.push_back(std::move(t));
    return s.tasks.size() - 1;
}

/// Runs until all tasks have ended, or none of them can go on
inline void loop() {
    auto& s = self();
    auto last = std::size_t(-1);
    for (std::size_t step = 0; ; ++step) {
        auto ready = std::vector<std::size_t>(), sleepers = std::vector<std::size_t>();
        auto all_done = true;
        for (std::size_t i = 0; i < s.tasks.size(); ++i) {
            auto const& t = *s.tasks[i];
            if (t.state == State::done) { continue; }
            all_done = false;
            if (t.state == State::cond) { if (runnable(t)) { sleepers.push_back(i); } }
            else if (runnable(t)) { ready.push_back(i); }
        }
        if (all_done) { return; }
        if (step > s.max_steps) { s.stuck = s.endless = true; return; }
        auto& c = s.choose;
        ++c.step;
        // a spurious wakeup may come at any time, but a schedule must not depend on it to go on
        auto next = std::size_t(-1);
        auto timed = std::vector<std::size_t>();
        for (auto i : sleepers) { if (s.tasks[i]->timed) { timed.push_back(i); } }
        if (ready.empty()) {
            if (timed.empty()) { s.stuck = true; return; }
            next = timed[c.pick(static_cast<int>(timed.size()))];
            s.tasks[next]->timed_out = true;
        } else if (c.kind == Chooser::random) {
            if (!sleepers.empty() && c.spurious > 0 && c.rng() % 16 == 0) {
                next = sleepers[c.pick(static_cast<int>(sleepers.size()))];
                --c.spurious;
            } else if (std::find(ready.begin(), ready.end(), last) != ready.end()
                       && std::uniform_real_distribution<>(0, 1)(c.rng) < c.keep) {
                next = last;
            } else {
                next = ready[c.pick(static_cast<int>(ready.size()))];
            }
        } else if (c.kind == Chooser::pct) {
            if (std::find(c.changes.begin(), c.changes.end(), c.step) != c.changes.end() && last != std::size_t(-1)) {
                s.tasks[last]->priority = -static_cast<double>(c.step);
            }
            if (!sleepers.empty() && c.spurious > 0 && c.rng() % 32 == 0) {
                next = sleepers[c.pick(static_cast<int>(sleepers.size()))];
                --c.spurious;
            } else {
                next = *std::max_element(ready.begin(), ready.end(), [&](std::size_t a, std::size_t b) {
                    return s.tasks[a]->priority < s.tasks[b]->priority; });
            }
        } else {
            // the running task goes on, unless a preemption is left
            auto order = ready;
            auto const it = std::find(order.begin(), order.end(), last);
            auto const can_go_on = it != order.end();
            if (can_go_on) { std::rotate(order.begin(), it, it + 1); }
            auto n = static_cast<int>(order.size());
            if (can_go_on && c.preemptions == 0) { n = 1; }
            auto const all = n + (c.spurious > 0 ? static_cast<int>(sleepers.size()) : 0);
            auto const k = c.pick(all);
            if (k < n) {
                next = order[k];
                if (can_go_on && k > 0) { --c.preemptions; }
            } else {
                next = sleepers[k - n];
                --c.spurious;
            }
        }
        s.current = next;
        last = next;
        auto& t = *s.tasks[next];
        t.state = State::ready; // whoever waits checks again
        swapcontext(&s.main, &t.context);
    }
}

/// Runs `body` (and the threads it starts) with the given schedule: false if it got stuck
inline bool run(std::function<void()> body) {
    auto& s = self();
    s.tasks.clear();
    s.owner.clear();
    s.stuck = s.endless = false;
    s.choose.step = 0;
    s.choose.depth = 0;
    s.choose.spurious = s.choose.max_spurious;
    s.choose.preemptions = s.choose.max_preemptions;
    spawn(std::move(body));
    s.active = true;
    loop();
    s.active = false;
    // the stacks of tasks which are stuck are given up
    for (auto& t : s.tasks) {
        if (t->state == State::done) { s.stacks.push_back(t->stack); }
        else { t.release(); }
    }
    return !s.stuck;
}

/// The present task goes on when the condition holds
inline void wait_until(std::function<bool()> f) {
    auto& s = self();
    auto const me = s.current;
    while (!f()) {
        s.tasks[me]->until = f;
        s.tasks[me]->state = State::until;
        switch_out();
    }
}

inline void lock(void* m) {
    auto& s = self();
    auto const me = s.current;
    switch_out();
    while (s.owner.count(m) != 0) {
        s.tasks[me]->state = State::mutex;
        s.tasks[me]->object = m;
        switch_out();
    }
    s.owner[m] = me;
}
inline int cond_wait(void* c, void* m, bool timed) {
    auto& s = self();
    auto const me = s.current;
    auto& t = *s.tasks[me];
    s.owner.erase(m);
    t.state = State::cond;
    t.object = c;
    t.timed = timed;
    t.timed_out = false;
    switch_out();
    t.timed = false;
    auto const result = t.timed_out ? ETIMEDOUT : 0;
    lock(m);
    return result;
}
inline void notify(void* c, bool all) {
    auto& s = self();
    switch_out();
    auto waiting = std::vector<Task*>();
    for (auto& t : s.tasks) {
        if (t->state == State::cond && t->object == c) { waiting.push_back(t.get()); }
    }
    if (waiting.empty()) { return; }
    if (all) {
        for (auto t : waiting) { t->state = State::ready; t->timed = false; }
    } else {
        auto t = waiting[s.choose.pick(static_cast<int>(waiting.size()))];
        t->state = State::ready;
        t->timed = false;
    }
}

template<class F>
F real(char const* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }

} // namespace sched

extern "C" {

int pthread_create(pthread_t* id, pthread_attr_t const* attr, void* (*f)(void*), void* arg) {
    if (!sched::self().active) {
        return sched::real<int (*)(pthread_t*, pthread_attr_t const*, void* (*)(void*), void*)>("pthread_create")(id, attr, f, arg);
    }
    auto const n = sched::spawn([=] { f(arg); });
    *id = static_cast<pthread_t>(n + 1);
    sched::point();
    return 0;
}
int pthread_join(pthread_t id, void** result) {
    if (!sched::self().active) { return sched::real<int (*)(pthread_t, void**)>("pthread_join")(id, result); }
    auto& s = sched::self();
    auto const me = s.current;
    auto const n = static_cast<std::size_t>(id) - 1;
    sched::point();
    while (s.tasks[n]->state != sched::State::done) {
        s.tasks[me]->state = sched::State::join;
        s.tasks[me]->joined = n;
        sched::switch_out();
    }
    return 0;
}
int pthread_detach(pthread_t id) {
    if (!sched::self().active) { return sched::real<int (*)(pthread_t)>("pthread_detach")(id); }
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!sched::self().active) { return sched::real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock")(m); }
    sched::lock(m);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!sched::self().active) { return sched::real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock")(m); }
    sched::point();
    auto& s = sched::self();
    if (s.owner.count(m)) { return EBUSY; }
    s.owner[m] = s.current;
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!sched::self().active) { return sched::real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock")(m); }
    sched::self().owner.erase(m);
    sched::point();
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!sched::self().active) { return sched::real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait")(c, m); }
    return sched::cond_wait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, timespec const* t) {
    if (!sched::self().active) {
        return sched::real<int (*)(pthread_cond_t*, pthread_mutex_t*, timespec const*)>("pthread_cond_timedwait")(c, m, t);
    }
    return sched::cond_wait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, timespec const* t) {
    if (!sched::self().active) {
        return sched::real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, timespec const*)>("pthread_cond_clockwait")(c, m, k, t);
    }
    return sched::cond_wait(c, m, true);
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (!sched::self().active) { return sched::real<int (*)(pthread_cond_t*)>("pthread_cond_signal")(c); }
    sched::notify(c, false);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!sched::self().active) { return sched::real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast")(c); }
    sched::notify(c, true);
    return 0;
}
pthread_t pthread_self(void) {
    static auto const real_self = sched::real<pthread_t (*)()>("pthread_self");
    return sched::self().active ? static_cast<pthread_t>(sched::self().current + 1) : real_self();
}
int sched_yield(void) {
    sched::point();
    return 0;
}
int nanosleep(timespec const*, timespec*) {
    sched::point();
    return 0;
}
int clock_nanosleep(clockid_t, int, timespec const*, timespec*) {
    sched::point();
    return 0;
}

} // extern "C"
