#pragma once
#define SUCCINCT_USE_LIBCXX 0
#define SUCCINCT_USE_INTRINSICS 0
#define SUCCINCT_USE_POPCNT 0
