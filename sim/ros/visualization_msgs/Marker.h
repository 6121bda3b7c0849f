#pragma once
#include "../simros.hpp"
