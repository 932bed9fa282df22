// The out-of-line members of std::string, from the installed headers.
#include <string>
template class std::basic_string<char>;
