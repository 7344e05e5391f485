#ifndef FUB_EXT_VERSION_HPP
#define FUB_EXT_VERSION_HPP
namespace fub::git { template <class L> void PrintProgramVersion(L&) {} }
#endif
