// native replay: makes the library believe that this (little-endian) host is big-endian
#pragma once
#include <bit>
#include <string>
#include <algorithm>
#include <atomic>
#include <span>
#include <ranges>
namespace std { enum class endian_be { little = 1234, big = 4321, native = 4321 }; }
#define endian endian_be
