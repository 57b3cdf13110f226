#ifndef VERIF_SHIM_BT_TASK_MANAGER_HPP
#define VERIF_SHIM_BT_TASK_MANAGER_HPP
#include "typedefs.hpp"
namespace BetterThreads {
class TaskManager {
    std::size_t _concurrency=0;
  public:
    static TaskManager& instance() { static TaskManager m; return m; }
    std::size_t maximum_concurrency() const { return 8; }
    std::size_t concurrency() const { return _concurrency; }
    void set_concurrency(std::size_t n) {
        if (n>maximum_concurrency()) throw std::runtime_error("concurrency too high");
        _concurrency=n; }
    void set_maximum_concurrency() { _concurrency=maximum_concurrency(); }
};
}
#endif
