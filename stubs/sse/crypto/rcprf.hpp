#pragma once
#include <sse/crypto/d/all.hpp>
