#include "c20.hpp"
namespace c20
{
template <> void formatting<char16_t>(Case& c) { formatting_impl<char16_t>(c); }
template <> void library<char16_t>(Case& c) { library_impl<char16_t>(c); }
template <> void packs<char16_t>(Case& c) { packs_impl<char16_t>(c); }
template <> void user<char16_t>(Case& c) { user_impl<char16_t>(c); }
template <> void strings<char16_t>(Case& c) { strings_impl<char16_t>(c); }
} // namespace c20
