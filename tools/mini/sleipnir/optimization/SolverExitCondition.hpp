#pragma once
#include "sleipnir/mini.hpp"
