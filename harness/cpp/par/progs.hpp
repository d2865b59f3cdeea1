#pragma once
#include "rt.hpp"
#include <functional>
#include <string>
std::function<void()> makeProg(const std::string &text);
