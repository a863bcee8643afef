#pragma once
#include <lexy/mini.hpp>
namespace lexy_ext::_detail {
template <typename Out, typename Ctx, typename Err>
Out write_error(Out out, Ctx const&, Err const& e, lexy::visualization_options, char const*) {
    std::string text = "error at position " + std::to_string(e.position - e.begin);
    return std::copy(text.begin(), text.end(), out);
}
} // namespace lexy_ext::_detail
