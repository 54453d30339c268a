// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <cstddef>
#include <utility>
namespace tateyama::task_scheduler {
struct rational { std::size_t n, d; };
class task_scheduler_cfg {
public:
    void thread_count(std::size_t n) { threads_ = n; }
    [[nodiscard]] std::size_t thread_count() const noexcept { return threads_; }
    void force_numa_node(std::size_t) {}
    void core_affinity(std::size_t) {}
    void assign_numa_nodes_uniformly(std::size_t) {}
    void initial_core(std::size_t) {}
    void stealing_enabled(std::size_t) {}
    void use_preferred_worker_for_current_thread(std::size_t) {}
    void stealing_wait(std::size_t) {}
    void task_polling_wait(std::size_t) {}
    void busy_worker(std::size_t) {}
    void watcher_interval(std::size_t) {}
    void worker_try_count(std::size_t) {}
    void worker_suspend_timeout(std::size_t) {}
    [[nodiscard]] bool use_preferred_worker_for_current_thread() const noexcept { return false; }
    void ratio_check_local_first(rational) {}
private:
    std::size_t threads_{1};
};
}  // namespace tateyama::task_scheduler
