// Stand-in for folly's logging: arguments are type-checked, nothing is written; FATAL ends the process.
#pragma once
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
#include "folly/Format.h"
#include "folly/String.h"
#include "folly/Range.h"
namespace folly::shim {
enum Level { DBG, DBG0, DBG1, DBG2, DBG3, DBG4, DBG5, DBG6, DBG7, DBG8, DBG9, INFO, WARN, WARNING, ERR, ERROR, CRITICAL, DFATAL, FATAL };
struct LogLine {
  explicit LogLine(Level l) : level(l) {}
  template <class... A> LogLine(Level l, A&&... a) : level(l) { (void)std::initializer_list<int>{((void)(os << a), 0)...}; }
  ~LogLine() { if (level == FATAL) std::abort(); }
  template <class T> LogLine& operator<<(const T& t) { os << t; return *this; }
  LogLine& operator<<(std::ostream& (*f)(std::ostream&)) { os << f; return *this; }
  std::ostringstream os; Level level;
};
struct Voidify { void operator&(const LogLine&) {} };
}
#define XLOG(level, ...) ::folly::shim::LogLine(::folly::shim::level, ##__VA_ARGS__)
#define XLOGF(level, ...) ::folly::shim::LogLine(::folly::shim::level, ::folly::sformat(__VA_ARGS__))
#define XLOG_EVERY_MS(level, ms, ...) ::folly::shim::LogLine(::folly::shim::level, ##__VA_ARGS__)
#define XLOG_IF(level, cond, ...) if (cond) ::folly::shim::LogLine(::folly::shim::level, ##__VA_ARGS__)
#define XCHECK(c, ...) if (!(c)) ::folly::shim::LogLine(::folly::shim::FATAL, ##__VA_ARGS__)
#define XDCHECK(c, ...) XCHECK(c, ##__VA_ARGS__)
