#pragma once
#include <nil/crypto3/multiprecision/cpp_int_modular.hpp>
