// the IR contains the bodies of std::string and the stream templates instead of references to libstdc++.so
#include <cstddef>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
