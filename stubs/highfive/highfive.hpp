// Interface stub for HighFive (absent offline): write-only HDF5 diagnostics are dropped.
#pragma once
#include <string>
#include <vector>
#include <cstddef>
namespace H5Easy {
class File {
 public:
  enum AccessMode { ReadOnly, ReadWrite, Overwrite, Excl, Create, Truncate };
  explicit File(const std::string &, AccessMode = ReadOnly) {}
  void flush() {}
};
template <typename T> void dump(File &, const std::string &, const T &) {}
} // namespace H5Easy
namespace HighFive { using H5Easy::File; }
