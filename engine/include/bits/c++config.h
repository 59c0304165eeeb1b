// Overlay: let every libstdc++ template be instantiated in our own (instrumented) objects instead
// of being taken from the uninstrumented libstdc++.so.
#pragma GCC system_header
#include_next <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
