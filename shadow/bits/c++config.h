// libstdc++ configuration, with all templates instantiated implicitly (so that their code is part of the bitcode)
#include_next <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
