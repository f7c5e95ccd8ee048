// Force-included before every source of the "sim" flavor: replaces the standard threading primitives by ones
// controlled by the deterministic scheduler, and adds a scheduling point to every atomic operation. TSan is told about
// the synchronization each primitive guarantees.
#ifndef VERIF_SIM_STD_H
#define VERIF_SIM_STD_H
#include <bits/stdc++.h>

#include "sched.h"

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
extern "C" void __tsan_acquire(void* addr);
extern "C" void __tsan_release(void* addr);
#define SIM_ACQUIRE(x) __tsan_acquire(x)
#define SIM_RELEASE(x) __tsan_release(x)
#endif
#endif
#ifndef SIM_ACQUIRE
#define SIM_ACQUIRE(x) (void)0
#define SIM_RELEASE(x) (void)0
#endif

namespace std {

class sim_mutex {
public:
  int owner_ = 0;
  sim_mutex() = default;
  sim_mutex(const sim_mutex&) = delete;
  void lock() {
    sim_lock(&owner_);
    SIM_ACQUIRE(this);
  }
  bool try_lock() {
    if (!sim_try_lock(&owner_)) return false;
    SIM_ACQUIRE(this);
    return true;
  }
  void unlock() {
    SIM_RELEASE(this);
    sim_unlock(&owner_);
  }
  void lock_shared() { lock(); }
  void unlock_shared() { unlock(); }
};

class sim_cv {
  char id_;

public:
  sim_cv() = default;
  sim_cv(const sim_cv&) = delete;
  template <typename L>
  void wait(L& l) {
    SIM_RELEASE(l.mutex());
    sim_cv_wait(&id_, &l.mutex()->owner_);
    SIM_ACQUIRE(l.mutex());
  }
  template <typename L, typename P>
  void wait(L& l, P p) {
    while (!p()) wait(l);
  }
  template <typename L, typename D>
  cv_status wait_for(L& l, const D&) {
    l.unlock();
    sim_yield();
    l.lock();
    return cv_status::timeout;
  }
  template <typename L, typename D, typename P>
  bool wait_for(L& l, const D& d, P p) {
    if (p()) return true;
    wait_for(l, d);
    return p();
  }
  template <typename L, typename D>
  cv_status wait_until(L& l, const D& d) {
    return wait_for(l, d);
  }
  void notify_one() { sim_cv_notify(&id_, 0); }
  void notify_all() { sim_cv_notify(&id_, 1); }
};

class sim_thread {
  thread t_;
  int id_ = -1;

public:
  using id = thread::id;
  sim_thread() = default;
  sim_thread(sim_thread&&) = default;
  sim_thread& operator=(sim_thread&&) = default;
  template <typename F, typename... Args, typename = enable_if_t<!is_same_v<decay_t<F>, sim_thread>>>
  explicit sim_thread(F&& f, Args&&... args) {
    id_ = sim_thread_new();
    t_ = thread(
        [id = id_](auto fn, auto... a) {
          sim_thread_enter(id);
          invoke(std::move(fn), std::move(a)...);
          sim_thread_exit();
        },
        std::forward<F>(f), std::forward<Args>(args)...);
    sim_point();
  }
  bool joinable() const { return t_.joinable(); }
  void join() {
    sim_thread_join(id_);
    t_.join();
  }
  void detach() { t_.detach(); }
  id get_id() const { return t_.get_id(); }
  static unsigned hardware_concurrency() { return 4; }
};

namespace sim_this_thread {
inline void yield() { sim_yield(); }
template <typename D>
void sleep_for(const D&) {
  sim_yield();
}
template <typename D>
void sleep_until(const D&) {
  sim_yield();
}
inline thread::id get_id() { return this_thread::get_id(); }
}  // namespace sim_this_thread

template <typename T>
class sim_atomic {
  atomic<T> v_;
  typedef memory_order mo;

public:
  sim_atomic() = default;
  constexpr sim_atomic(T v) : v_(v) {}
  sim_atomic(const sim_atomic&) = delete;
  T load(mo o = memory_order_seq_cst) const {
    sim_point();
    return v_.load(o);
  }
  void store(T v, mo o = memory_order_seq_cst) {
    sim_point();
    v_.store(v, o);
  }
  operator T() const { return load(); }
  T operator=(T v) {
    store(v);
    return v;
  }
  T exchange(T v, mo o = memory_order_seq_cst) {
    sim_point();
    return v_.exchange(v, o);
  }
  bool compare_exchange_strong(T& e, T v, mo o = memory_order_seq_cst) {
    sim_point();
    return v_.compare_exchange_strong(e, v, o);
  }
  bool compare_exchange_strong(T& e, T v, mo o, mo f) {
    sim_point();
    return v_.compare_exchange_strong(e, v, o, f);
  }
  bool compare_exchange_weak(T& e, T v, mo o = memory_order_seq_cst) {
    sim_point();
    return v_.compare_exchange_strong(e, v, o);
  }
  bool compare_exchange_weak(T& e, T v, mo o, mo f) {
    sim_point();
    return v_.compare_exchange_strong(e, v, o, f);
  }
#define SIM_RMW(name)                                                                                                  \
  template <typename U>                                                                                                \
  T name(U v, mo o = memory_order_seq_cst) {                                                                           \
    sim_point();                                                                                                       \
    return v_.name(v, o);                                                                                              \
  }
  SIM_RMW(fetch_add)
  SIM_RMW(fetch_sub)
  SIM_RMW(fetch_and)
  SIM_RMW(fetch_or)
  SIM_RMW(fetch_xor)
#undef SIM_RMW
  T operator++() {
    sim_point();
    return ++v_;
  }
  T operator--() {
    sim_point();
    return --v_;
  }
  T operator++(int) {
    sim_point();
    return v_++;
  }
  T operator--(int) {
    sim_point();
    return v_--;
  }
  template <typename U>
  T operator+=(U x) {
    sim_point();
    return v_ += x;
  }
  template <typename U>
  T operator-=(U x) {
    sim_point();
    return v_ -= x;
  }
  bool is_lock_free() const { return true; }
};
typedef sim_atomic<bool> sim_atomic_bool;
typedef sim_atomic<int> sim_atomic_int;

}  // namespace std

#ifndef SIM_NO_MACROS
#define thread sim_thread
#define this_thread sim_this_thread
#define condition_variable sim_cv
#define condition_variable_any sim_cv
#define atomic sim_atomic
#define atomic_bool sim_atomic_bool
#define atomic_int sim_atomic_int
#define shared_mutex sim_mutex
#define recursive_mutex sim_mutex
#define mutex sim_mutex
#endif
#endif
