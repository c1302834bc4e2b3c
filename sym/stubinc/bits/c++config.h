// instantiate the library templates (std::string, ...) from their headers so that they are part of the encoding
#include_next <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
