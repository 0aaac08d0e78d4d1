// the sandbox has fmt 9: supply the styled print overload taking a format_string that the newer fmt of the project's build has
#pragma once
#include_next <fmt/color.h>
namespace fmt {
template<typename... A> void print(std::FILE *f, const text_style &ts, format_string<A...> s, A &&...a) { vprint(f, ts, string_view(s), fmt::make_format_args(a...)); }
}
