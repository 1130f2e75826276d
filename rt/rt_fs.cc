// std::filesystem: only enough for construction and string access of paths.
#include <sstream>
#include <iomanip>
#define private public
#define protected public
#include <filesystem>
#undef private
#undef protected
namespace std::filesystem {
path::_List::_List() { *(void **)this = nullptr; }
path::_List::_List(const _List &) { *(void **)this = nullptr; }
path::_List &path::_List::operator=(const _List &) { return *this; }
void path::_List::_Impl_deleter::operator()(_Impl *) const noexcept {}
void path::_M_split_cmpts() {}
path current_path() { return path(std::string("/w")); }
}
