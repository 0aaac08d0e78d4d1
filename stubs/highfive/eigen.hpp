#pragma once
#include "highfive.hpp"
