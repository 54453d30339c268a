// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <condition_variable>
#include <cstddef>
#include <cstdint>
#include <deque>
#include <functional>
#include <mutex>
#include <ostream>
#include <thread>
#include <vector>
#include <tateyama/task_scheduler/context.h>
#include <tateyama/task_scheduler/schedule_option.h>
#include <tateyama/task_scheduler/task_scheduler_cfg.h>
namespace tateyama::task_scheduler {
// each worker runs the tasks of its own queue, then those of the shared queue; conditional tasks are polled by a watcher
template <class T, class C>
class scheduler {
public:
    using initializer_type = std::function<void(std::size_t)>;
    scheduler() : scheduler(task_scheduler_cfg{}) {}
    explicit scheduler(task_scheduler_cfg cfg, initializer_type init = {}) : cfg_(cfg), init_(std::move(init)), own_(cfg.thread_count() ? cfg.thread_count() : 1) {}
    ~scheduler() { stop(); }
    void schedule(T&& t, schedule_option = {}) {
        std::lock_guard<std::mutex> l{m_};
        shared_.push_back(std::move(t));
        cv_.notify_all();
    }
    void schedule_at(T&& t, std::size_t i) {
        std::lock_guard<std::mutex> l{m_};
        own_[i % own_.size()].push_back(std::move(t));
        cv_.notify_all();
    }
    void schedule_conditional(C&& t) {
        std::lock_guard<std::mutex> l{m_};
        cond_.push_back(std::move(t));
        cv_.notify_all();
    }
    [[nodiscard]] std::size_t preferred_worker_for_current_thread() { return next_worker(); }
    [[nodiscard]] std::size_t next_worker() {
        std::lock_guard<std::mutex> l{m_};
        return next_++ % own_.size();
    }
    void start() {
        for (std::size_t i = 0; i < own_.size(); ++i) threads_.emplace_back([this, i] { work(i); });
        threads_.emplace_back([this] { watch(); });
    }
    void stop() {
        {
            std::lock_guard<std::mutex> l{m_};
            stop_ = true;
            cv_.notify_all();
        }
        for (auto& t : threads_) t.join();
        threads_.clear();
    }
    void print_worker_stats(std::ostream&) {}
    void print_diagnostic(std::ostream&) {}

private:
    task_scheduler_cfg cfg_;
    initializer_type init_;
    std::mutex m_{};
    std::condition_variable cv_{};
    std::vector<std::deque<T>> own_;
    std::deque<T> shared_{};
    std::deque<C> cond_{};
    std::vector<std::thread> threads_{};
    std::size_t next_{};
    bool stop_{};
    void work(std::size_t i) {
        if (init_) init_(i);
        context ctx{i};
        std::unique_lock<std::mutex> l{m_};
        while (!stop_) {
            auto& q = own_[i].empty() ? shared_ : own_[i];
            if (q.empty()) {
                cv_.wait(l);
                continue;
            }
            T t{std::move(q.front())};
            q.pop_front();
            l.unlock();
            t(ctx);
            l.lock();
        }
    }
    void watch() {
        std::unique_lock<std::mutex> l{m_};
        while (!stop_) {
            if (cond_.empty()) {
                cv_.wait(l);
                continue;
            }
            C t{std::move(cond_.front())};
            cond_.pop_front();
            l.unlock();
            bool ready = t.check();
            if (ready) t();
            l.lock();
            if (!ready) cond_.push_back(std::move(t));
        }
    }
};
}  // namespace tateyama::task_scheduler
