#pragma once
#include <sse/crypto/d/all.hpp>
#include <iomanip>
#include <sstream>
#include <iostream>
