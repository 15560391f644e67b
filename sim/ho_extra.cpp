// A second translation unit of the header-only build: the inline standard streams have to be one object.
#include <cmp/io/uio.hpp>
#include <cmp/io/file.hpp>
void* ho_streams[] = {&cmp::uin, &cmp::uout, &cmp::uerr};
