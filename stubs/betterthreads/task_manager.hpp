/* Stand-in for the betterthreads submodule (empty and unfetchable in this
 * sandbox).  Same interface as the library uses (TaskManager::instance,
 * set_maximum_concurrency, concurrency, enqueue -> Future::get), with the
 * schedule under the control of the test harness.
 *
 * A schedule is what a real pool may do: a task may run at any moment between
 * its enqueue and the return of its future's get().  Modes:
 *   Eager    run inside enqueue (what betterthreads does with concurrency 0)
 *   Chosen   pending tasks wait; at every enqueue and get the `choose` callback
 *            decides which pending tasks run, in which order, before the call
 *            goes on (the awaited one always runs before its get returns)
 *   Threads  one real std::thread per task
 */
#ifndef VERIF_STUB_BETTERTHREADS_TASK_MANAGER_HPP
#define VERIF_STUB_BETTERTHREADS_TASK_MANAGER_HPP

#include <cstddef>
#include <functional>
#include <future>
#include <memory>
#include <thread>
#include <utility>
#include <vector>

namespace BetterThreads {

enum class StubMode { Eager, Chosen, Threads };

struct StubTask {
    std::function<void()> run;
    bool done = false;
};

struct StubState {
    StubMode mode = StubMode::Eager;
    std::size_t concurrency = 4;
    std::function<std::size_t(std::size_t)> choose;  // value in [0, n)
    std::vector<std::shared_ptr<StubTask>> pending;
    // Optional replacement for "run each task to completion in turn": is given
    // all pending tasks and must have run every one of them on return.
    std::function<void(std::vector<std::function<void()>>)> run_all;
    std::size_t tasks = 0;
    std::size_t out_of_order = 0;
    std::vector<std::size_t> order;

    static StubState& get() { static StubState s; return s; }

    void run_at(std::size_t i) {
        auto t = pending[i];
        pending.erase(pending.begin() + static_cast<std::ptrdiff_t>(i));
        if (i != 0) ++out_of_order;
        t->done = true;
        t->run();
    }
    void maybe_run() {
        if (!choose || run_all) return;
        while (!pending.empty()) {
            std::size_t c = choose(pending.size() + 1);
            if (c == 0) break;
            run_at(c - 1);
        }
    }
    void finish(const std::shared_ptr<StubTask>& t) {
        if (run_all && !pending.empty()) {
            std::vector<std::function<void()>> fs;
            for (auto& p : pending) { p->done = true; fs.push_back(p->run); }
            pending.clear();
            run_all(std::move(fs));
            return;
        }
        maybe_run();
        if (!t->done) {
            for (std::size_t i = 0; i < pending.size(); ++i)
                if (pending[i] == t) { run_at(i); break; }
        }
        maybe_run();
    }
};

template <class R>
class Future {
public:
    Future() = default;
    Future(std::future<R> f, std::shared_ptr<StubTask> t)
        : _f(std::move(f)), _t(std::move(t)) {}
    R get() {
        if (_t) StubState::get().finish(_t);
        return _f.get();
    }
private:
    std::future<R> _f;
    std::shared_ptr<StubTask> _t;
};

class TaskManager {
public:
    static TaskManager& instance() { static TaskManager tm; return tm; }
    std::size_t maximum_concurrency() const { return StubState::get().concurrency; }
    std::size_t concurrency() const { return StubState::get().concurrency; }
    void set_maximum_concurrency() {}
    void set_concurrency(std::size_t c) { StubState::get().concurrency = c; }

    template <class F, class... A>
    auto enqueue(F&& f, A&&... a)
        -> Future<typename std::invoke_result<F, A...>::type> {
        using R = typename std::invoke_result<F, A...>::type;
        auto& s = StubState::get();
        ++s.tasks;
        auto task = std::make_shared<std::packaged_task<R()>>(
            std::bind(std::forward<F>(f), std::forward<A>(a)...));
        auto fut = task->get_future();
        switch (s.mode) {
            case StubMode::Threads:
                std::thread([task]() { (*task)(); }).detach();
                return Future<R>(std::move(fut), nullptr);
            case StubMode::Chosen: {
                auto t = std::make_shared<StubTask>();
                t->run = [task]() { (*task)(); };
                s.pending.push_back(t);
                s.maybe_run();
                return Future<R>(std::move(fut), t);
            }
            case StubMode::Eager:
            default:
                (*task)();
                return Future<R>(std::move(fut), nullptr);
        }
    }
};

}  // namespace BetterThreads
#endif
