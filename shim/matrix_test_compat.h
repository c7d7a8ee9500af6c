// Force-included in ColorMagic_Test/MatrixTest.cpp only. That file passes temporaries to
// matrix<T>::insert(std::vector<T>&), an MSVC extension. Wrapping the argument gives the same
// behaviour: the temporary lives until the end of the full expression.
#pragma once
#include "gtest/gtest.h"
#include <vector>
#include "ColorMagic/utils/matrix.h"

template <typename T> T& msvc_lvalue(T& value) { return value; }
template <typename T> typename std::enable_if<!std::is_lvalue_reference<T>::value, T&>::type
msvc_lvalue(T&& value) { return static_cast<T&>(value); }

#define insert(...) insert(msvc_lvalue(__VA_ARGS__))
