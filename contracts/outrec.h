// Recorder in place of std::cout inside a tool: keeps the numbers printed, in order; texts and manipulators are ignored.
#pragma once
#include <iostream>
#include <iomanip>
#include <fstream>
#include <sstream>
#include <string>
struct VpOut {
  double v[32]; int n = 0;
#if defined VP_SYM && defined VP_NO_RECORD
  VpOut &operator<<(double) { return *this; }
#else
  VpOut &operator<<(double x) { if (n < 32) v[n] = x; n++; return *this; }
#endif
  VpOut &operator<<(int x) { return *this << (double)x; }
  VpOut &operator<<(long x) { return *this << (double)x; }
  VpOut &operator<<(unsigned x) { return *this << (double)x; }
  VpOut &operator<<(unsigned long x) { return *this << (double)x; }
  VpOut &operator<<(const char *) { return *this; }
  VpOut &operator<<(const std::string &) { return *this; }
  VpOut &operator<<(char) { return *this; }
  VpOut &operator<<(std::ostream &(*)(std::ostream &)) { return *this; }
  VpOut &operator<<(std::ios_base &(*)(std::ios_base &)) { return *this; }
  VpOut &operator<<(decltype(std::setprecision(1))) { return *this; }
  VpOut &operator<<(decltype(std::setw(1))) { return *this; }
  void unsetf(std::ios_base::fmtflags) {}
  operator std::ostream &() const { return std::cerr; }
};
inline VpOut vp_out;
#define cout vp_out
