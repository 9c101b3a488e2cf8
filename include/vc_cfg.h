// IR builds only: instantiate the libstdc++ templates in place instead of relying on the shared library
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
