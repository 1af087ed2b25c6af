// forced include for every unit that is executed symbolically: std::string is instantiated in the unit itself, the
// remaining explicit instantiations of libstdc++ stay external (rt.cpp has them)
#pragma once
#ifdef __cplusplus
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <string>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 1
#endif
