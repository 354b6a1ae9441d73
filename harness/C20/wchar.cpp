#include "c20.hpp"
namespace c20
{
template <> void formatting<wchar_t>(Case& c) { formatting_impl<wchar_t>(c); }
template <> void library<wchar_t>(Case& c) { library_impl<wchar_t>(c); }
template <> void packs<wchar_t>(Case& c) { packs_impl<wchar_t>(c); }
template <> void user<wchar_t>(Case& c) { user_impl<wchar_t>(c); }
template <> void strings<wchar_t>(Case& c) { strings_impl<wchar_t>(c); }
} // namespace c20
