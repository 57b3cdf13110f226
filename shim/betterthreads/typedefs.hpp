// Stand-in for the betterthreads submodule (absent here).
#ifndef VERIF_SHIM_BT_TYPEDEFS_HPP
#define VERIF_SHIM_BT_TYPEDEFS_HPP
#include <mutex>
#include <memory>
#include <functional>
#include <thread>
#include <condition_variable>
namespace BetterThreads {
using Mutex = std::mutex;
template<class T> using LockGuard = std::lock_guard<T>;
}
#endif
