// Minimal offline stand-in for the subset of libcoro 0.14 that AlayaLite uses.  Harness code only.
#pragma once
#include <atomic>
#include <condition_variable>
#include <coroutine>
#include <cstddef>
#include <cstdint>
#include <deque>
#include <exception>
#include <functional>
#include <memory>
#include <mutex>
#include <optional>
#include <thread>
#include <type_traits>
#include <utility>
#include <vector>

namespace coro {
template <typename T = void>
class task;

namespace detail {
struct promise_base {
  std::coroutine_handle<> continuation_{};
  std::exception_ptr error_{};
  struct final_awaiter {
    bool await_ready() const noexcept { return false; }
    template <typename P>
    std::coroutine_handle<> await_suspend(std::coroutine_handle<P> h) noexcept {
      auto c = h.promise().continuation_;
      if (c) return c;
      return std::noop_coroutine();
    }
    void await_resume() noexcept {}
  };
  std::suspend_always initial_suspend() noexcept { return {}; }
  final_awaiter final_suspend() noexcept { return {}; }
  void unhandled_exception() { error_ = std::current_exception(); }
};
template <typename T>
struct promise : promise_base {
  std::optional<T> value_;
  task<T> get_return_object();
  template <typename U>
  void return_value(U &&u) { value_.emplace(std::forward<U>(u)); }
  T take() {
    if (error_) std::rethrow_exception(error_);
    return std::move(*value_);
  }
};
template <>
struct promise<void> : promise_base {
  inline task<void> get_return_object();
  void return_void() noexcept {}
  void take() {
    if (error_) std::rethrow_exception(error_);
  }
};
}  // namespace detail

template <typename T>
class [[nodiscard]] task {
 public:
  using promise_type = detail::promise<T>;
  using handle_type = std::coroutine_handle<promise_type>;
  task() noexcept = default;
  explicit task(handle_type h) noexcept : h_(h) {}
  task(task &&o) noexcept : h_(std::exchange(o.h_, nullptr)) {}
  task &operator=(task &&o) noexcept {
    if (this != &o) {
      if (h_) h_.destroy();
      h_ = std::exchange(o.h_, nullptr);
    }
    return *this;
  }
  task(const task &) = delete;
  task &operator=(const task &) = delete;
  ~task() { if (h_) h_.destroy(); }
  bool is_ready() const noexcept { return !h_ || h_.done(); }
  bool resume() { if (h_ && !h_.done()) h_.resume(); return h_ && !h_.done(); }
  bool destroy() { if (h_) { h_.destroy(); h_ = nullptr; return true; } return false; }
  handle_type handle() const noexcept { return h_; }
  promise_type &promise() { return h_.promise(); }
  auto operator co_await() const noexcept {
    struct awaiter {
      handle_type h;
      bool await_ready() const noexcept { return !h || h.done(); }
      std::coroutine_handle<> await_suspend(std::coroutine_handle<> c) noexcept {
        h.promise().continuation_ = c;
        return h;
      }
      T await_resume() { return h.promise().take(); }
    };
    return awaiter{h_};
  }

 private:
  handle_type h_{};
};
template <typename T>
task<T> detail::promise<T>::get_return_object() {
  return task<T>{std::coroutine_handle<promise<T>>::from_promise(*this)};
}
inline task<void> detail::promise<void>::get_return_object() {
  return task<void>{std::coroutine_handle<promise<void>>::from_promise(*this)};
}

class thread_pool {
 public:
  struct options {
    uint32_t thread_count = std::thread::hardware_concurrency();
    std::function<void(std::size_t)> on_thread_start_functor = nullptr;
    std::function<void(std::size_t)> on_thread_stop_functor = nullptr;
  };
  thread_pool() : thread_pool(options()) {}
  explicit thread_pool(options o) : opts_(std::move(o)) {
    if (opts_.thread_count == 0) opts_.thread_count = 1;
    for (uint32_t i = 0; i < opts_.thread_count; ++i) threads_.emplace_back([this, i] { run(i); });
  }
  thread_pool(const thread_pool &) = delete;
  ~thread_pool() { shutdown(); }
  struct operation {
    thread_pool &p;
    bool await_ready() const noexcept { return false; }
    void await_suspend(std::coroutine_handle<> h) { p.push(h); }
    void await_resume() const noexcept {}
  };
  operation schedule() { return operation{*this}; }
  operation yield() { return operation{*this}; }
  bool resume(std::coroutine_handle<> h) {
    if (!h || h.done()) return false;
    return push(h);
  }
  uint32_t thread_count() const { return opts_.thread_count; }
  void shutdown() {
    {
      std::lock_guard g(m_);
      stop_ = true;
    }
    cv_.notify_all();
    for (auto &t : threads_) if (t.joinable()) t.join();
  }

 private:
  bool push(std::coroutine_handle<> h) {
    {
      std::lock_guard g(m_);
      q_.push_back(h);
    }
    cv_.notify_one();
    return true;
  }
  void run(uint32_t i) {
    if (opts_.on_thread_start_functor) opts_.on_thread_start_functor(i);
    for (;;) {
      std::coroutine_handle<> h;
      {
        std::unique_lock g(m_);
        cv_.wait(g, [&] { return stop_ || !q_.empty(); });
        if (q_.empty()) break;
        h = q_.front();
        q_.pop_front();
      }
      h.resume();
    }
    if (opts_.on_thread_stop_functor) opts_.on_thread_stop_functor(i);
  }
  options opts_;
  std::mutex m_;
  std::condition_variable cv_;
  std::deque<std::coroutine_handle<>> q_;
  bool stop_ = false;
  std::vector<std::thread> threads_;
};

namespace detail {
struct detached {
  struct promise_type {
    detached get_return_object() noexcept { return {}; }
    std::suspend_never initial_suspend() noexcept { return {}; }
    std::suspend_never final_suspend() noexcept { return {}; }
    void return_void() noexcept {}
    void unhandled_exception() { std::terminate(); }
  };
};
template <typename A>
using await_result_t = decltype(std::declval<A>().operator co_await().await_resume());

template <typename T>
class when_all_awaitable {
 public:
  struct slot {
    task<T> t;
    std::exception_ptr err;
    std::optional<std::conditional_t<std::is_void_v<T>, char, T>> value;
    decltype(auto) return_value() {
      if (err) std::rethrow_exception(err);
      if constexpr (!std::is_void_v<T>) return (*value);
    }
  };
  struct state {
    std::vector<slot> slots;
    std::atomic<size_t> left{0};
    std::coroutine_handle<> cont;
  };
  explicit when_all_awaitable(std::vector<task<T>> ts) : st_(std::make_shared<state>()) {
    for (auto &t : ts) st_->slots.push_back(slot{std::move(t), {}, {}});
  }
  struct awaiter {
    std::shared_ptr<state> st;
    bool await_ready() const noexcept { return st->slots.empty(); }
    bool await_suspend(std::coroutine_handle<> h) {
      st->cont = h;
      auto s = st;  // keep alive past resumption
      size_t n = s->slots.size();
      s->left.store(n + 1);
      for (size_t i = 0; i < n; ++i) drive(s, i);
      // returns false (= resume inline) when everything has completed already
      return s->left.fetch_sub(1) != 1;
    }
    std::vector<slot> await_resume() { return std::move(st->slots); }
  };
  awaiter operator co_await() const noexcept { return awaiter{st_}; }

 private:
  static detached drive(std::shared_ptr<state> s, size_t i) {
    auto &sl = s->slots[i];
    try {
      if constexpr (std::is_void_v<T>) {
        co_await sl.t;
      } else {
        sl.value.emplace(co_await sl.t);
      }
    } catch (...) {
      sl.err = std::current_exception();
    }
    if (s->left.fetch_sub(1) == 1) s->cont.resume();
  }
  std::shared_ptr<state> st_;
};

template <typename A, typename R>
detached sync_drive(A &a, R &out, std::exception_ptr &err, std::mutex &m, std::condition_variable &cv,
                    bool &done) {
  try {
    if constexpr (std::is_same_v<R, char>) {
      co_await a;
    } else {
      out.emplace(co_await a);
    }
  } catch (...) {
    err = std::current_exception();
  }
  std::lock_guard g(m);
  done = true;
  cv.notify_all();
}
}  // namespace detail

template <typename T>
auto when_all(std::vector<task<T>> ts) { return detail::when_all_awaitable<T>(std::move(ts)); }
template <typename... T>
  requires(std::is_same_v<T, task<void>> && ...)
auto when_all(T... ts) {
  std::vector<task<void>> v;
  (v.push_back(std::move(ts)), ...);
  return detail::when_all_awaitable<void>(std::move(v));
}

template <typename A>
auto sync_wait(A &&a) {
  using R = detail::await_result_t<A>;
  std::exception_ptr err;
  std::mutex m;
  std::condition_variable cv;
  bool done = false;
  if constexpr (std::is_void_v<R>) {
    char out = 0;
    detail::sync_drive(a, out, err, m, cv, done);
    std::unique_lock g(m);
    cv.wait(g, [&] { return done; });
    if (err) std::rethrow_exception(err);
  } else {
    std::optional<std::decay_t<R>> out;
    detail::sync_drive(a, out, err, m, cv, done);
    std::unique_lock g(m);
    cv.wait(g, [&] { return done; });
    if (err) std::rethrow_exception(err);
    return std::move(*out);
  }
}
}  // namespace coro
