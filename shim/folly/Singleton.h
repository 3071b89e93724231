#pragma once
#include <functional>
#include <memory>
namespace folly {
namespace detail { struct DefaultTag {}; }
template <class T, class Tag = detail::DefaultTag> class Singleton {
 public:
  Singleton() {}
  static std::shared_ptr<T> try_get() { static std::shared_ptr<T> i(new T()); return i; }
};
}
