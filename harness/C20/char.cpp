#include "c20.hpp"
namespace c20
{
template <> void formatting<char>(Case& c) { formatting_impl<char>(c); }
template <> void library<char>(Case& c) { library_impl<char>(c); }
template <> void packs<char>(Case& c) { packs_impl<char>(c); }
template <> void user<char>(Case& c) { user_impl<char>(c); }
template <> void strings<char>(Case& c) { strings_impl<char>(c); }
} // namespace c20
