// Forced in front of every simulated translation unit: std::string's members are instantiated (and instrumented)
// there instead of being taken, uninstrumented, from libstdc++.a. (-D on the command line is overridden by c++config.h.)
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
