// Standard headers the repository's sources rely on without including them.
#pragma once
#define FMT_HEADER_ONLY 1
#ifdef MC_TSAN
// the explorer's threads share one system thread: call_once must not pass its argument through a thread-local variable
#define __thread
#define __once_callable (*mc_once_callable())
#define __once_call (*mc_once_call())
#define __once_proxy mc_once_proxy
#include <mutex>
#undef __thread
#undef __once_callable
#undef __once_call
#undef __once_proxy
#endif
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <random>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>
