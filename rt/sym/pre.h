#pragma once
#ifdef __cplusplus
#include <bits/c++config.h>
#define VP_MODEL 1 // the symbolic build
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <cstdint>
#include <memory>
#endif
