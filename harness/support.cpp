// Instantiates the parts of the C++ standard library that are normally taken from libstdc++.so, so that they are
// executed symbolically as well.
#include <string>
template class std::allocator<char>;
template class std::basic_string<char>;
