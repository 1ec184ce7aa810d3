// the library declares these instantiations extern: make their bodies available to the analysis
#pragma once
#include <string>
template class std::basic_string<char>;
template class std::basic_string<char16_t>;
