#pragma once
#include <cstdint>
#include <exception>
#include <optional>
#include <string>
#include <utility>
#include <vector>
namespace cpptrace {
using frame_ptr = std::uintptr_t;
struct stacktrace_frame {
    frame_ptr raw_address = 0;
    std::optional<std::uint32_t> line;
    std::string filename;
    std::string symbol;
};
struct stacktrace {
    std::vector<stacktrace_frame> frames;
    auto begin() const { return frames.begin(); }
    auto end() const { return frames.end(); }
    std::string to_string(bool = false) const { return "<stacktrace>"; }
};
inline stacktrace generate_trace() { return {}; }
struct exception : std::exception {
    const char* what() const noexcept override { return message(); }
    virtual const char* message() const noexcept = 0;
    virtual stacktrace const& trace() const noexcept = 0;
};
struct lazy_exception : exception {
    const char* message() const noexcept override { return "cpptrace::lazy_exception"; }
    stacktrace const& trace() const noexcept override { static stacktrace s; return s; }
};
}
