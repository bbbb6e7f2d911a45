#pragma once
#include "mx/core/Document.h"
#include <cstdint>
void editDoc(mx::core::Document& d, uint64_t seed);
