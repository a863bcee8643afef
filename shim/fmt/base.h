#pragma once
#include <fmt/core.h>
#include <fmt/format.h>
