// helpers for contracts on the NRG core headers
#ifndef VP_CORE_H
#define VP_CORE_H
#include <new>
#include "traits.hpp"
#include "params.hpp"
// a parameter set of which only the fields a contract assigns are meaningful
inline NRG::Params &vp_params() {
#ifdef VP_SYM
  alignas(NRG::Params) static unsigned char buf[sizeof(NRG::Params)];
  return *reinterpret_cast<NRG::Params *>(buf);
#else
  static NRG::Params &P = *new NRG::Params();
  return P;
#endif
}
#endif
