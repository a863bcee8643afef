#pragma once
#include <cpptrace/cpptrace.hpp>
