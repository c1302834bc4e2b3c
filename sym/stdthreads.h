// std::thread and std::condition_variable on top of the pthread calls, for both builds (so that they go through the modelled / the deterministic scheduler)
#pragma once
#include <stdexcept>
#include <system_error>
#include <thread>
#include <condition_variable>
#include <pthread.h>
namespace std {
  condition_variable::condition_variable() noexcept {}
  condition_variable::~condition_variable() noexcept {}
  void condition_variable::notify_one() noexcept { pthread_cond_signal(native_handle()); }
  void condition_variable::notify_all() noexcept { pthread_cond_broadcast(native_handle()); }
  void condition_variable::wait(unique_lock<mutex>& l) { pthread_cond_wait(native_handle(), l.mutex()->native_handle()); }
  thread::_State::~_State() {}
  void thread::_M_start_thread(_State_ptr s, void (*)()) { struct R { static void* f(void* p) { _State_ptr q((_State*)p); q->_M_run(); return 0; } }; pthread_t h; if (pthread_create(&h, 0, R::f, s.get())) throw std::runtime_error("thread"); s.release(); _M_id = id(h); }
  void thread::join() { pthread_join(_M_id._M_thread, 0); _M_id = id(); }
  void thread::detach() { pthread_detach(_M_id._M_thread); _M_id = id(); }
  unsigned thread::hardware_concurrency() noexcept { return 8; }
}
