#pragma once
#ifndef FMT_HEADER_ONLY
#define FMT_HEADER_ONLY
#endif
#include <fmt/format.h>
#include <fmt/ostream.h>
#include <fmt/ranges.h>
#include <string>
#include <string_view>
namespace folly {
template <class... A> std::string sformat(std::string_view f, A&&... a) {
  return fmt::vformat(fmt::string_view(f.data(), f.size()), fmt::make_format_args(a...));
}
}
