#pragma once
#include "eve/wide.hpp"
