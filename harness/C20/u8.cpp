#include "c20.hpp"
namespace c20
{
template <> void formatting<char8_t>(Case& c) { formatting_impl<char8_t>(c); }
template <> void library<char8_t>(Case& c) { library_impl<char8_t>(c); }
template <> void packs<char8_t>(Case& c) { packs_impl<char8_t>(c); }
template <> void user<char8_t>(Case& c) { user_impl<char8_t>(c); }
template <> void strings<char8_t>(Case& c) { strings_impl<char8_t>(c); }
} // namespace c20
