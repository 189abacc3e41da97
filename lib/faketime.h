#pragma once
#include <stdint.h>
#include <time.h>
extern bool fake_time_on; extern int64_t fake_sec; extern int32_t fake_usec;
struct FakeTime { FakeTime(int64_t s) { fake_sec = s; fake_usec = 0; fake_time_on = true; } ~FakeTime() { fake_time_on = false; } };
