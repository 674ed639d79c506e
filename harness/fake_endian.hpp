// C24: makes this compilation believe that the host is big-endian: the conversion code runs, on the little-endian data.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <bit>
#include <cstdint>
#include <cstring>
#include <iterator>
#include <memory>
#include <new>
#include <numeric>
#include <optional>
#include <ranges>
#include <span>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
namespace std { enum class fake_endian { little = 1234, big = 4321, native = 4321 }; }
#define endian fake_endian
#undef __BYTE_ORDER__
#define __BYTE_ORDER__ __ORDER_BIG_ENDIAN__
#undef __LITTLE_ENDIAN__
#define __BIG_ENDIAN__ 1
