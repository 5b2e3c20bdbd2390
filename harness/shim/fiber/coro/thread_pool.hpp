// Stand-in for coro::thread_pool: keeps resumed coroutines for the harness's own worker threads.
#pragma once
#include <atomic>
#include <coroutine>
#include <deque>
#include <functional>
#include <mutex>
namespace coro {
class thread_pool {
 public:
  std::function<void(std::coroutine_handle<>)> sink;
  auto resume(std::coroutine_handle<> h) -> bool { sink(h); return true; }
  struct op {
    thread_pool *p;
    auto await_ready() const noexcept -> bool { return false; }
    void await_suspend(std::coroutine_handle<> h) { p->sink(h); }
    void await_resume() const noexcept {}
  };
  auto schedule() -> op { return op{this}; }
};
}  // namespace coro
