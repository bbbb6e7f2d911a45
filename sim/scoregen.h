#pragma once
#include "rt.h"
#include "mx/api/ScoreData.h"
mx::api::ScoreData makeScore(uint64_t seed, bool withIds);
void editScore(mx::api::ScoreData&, uint64_t seed);
