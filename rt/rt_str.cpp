// libstdc++ templates that the library binary instantiates.
#include <string>
template class std::basic_string<char>;
