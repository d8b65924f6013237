// Force-included in every instrumented unit: standard templates are instantiated (and instrumented) in the
// program instead of being taken from libstdc++.so.
#pragma once
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
