#include_next <bits/c++config.h>
// every template is instantiated where it is used, so that all code is there to execute
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
