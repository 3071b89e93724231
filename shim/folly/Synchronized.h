#pragma once
#include <mutex>
namespace folly {
template <class T> class Synchronized {
 public:
  template <class F> auto withWLock(F&& f) { std::lock_guard<std::mutex> l(m_); return f(t_); }
  template <class F> auto withRLock(F&& f) const { std::lock_guard<std::mutex> l(m_); return f(static_cast<const T&>(t_)); }
  struct Ptr { std::unique_lock<std::mutex> l; T* t; T* operator->() { return t; } T& operator*() { return *t; } };
  Ptr wlock() { return Ptr{std::unique_lock<std::mutex>(m_), &t_}; }
  Ptr rlock() { return wlock(); }
 private:
  mutable std::mutex m_; T t_;
};
}
