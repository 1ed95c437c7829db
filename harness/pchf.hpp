#include "pch.hpp"
#include "fast.hpp"
