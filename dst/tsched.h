#pragma once
#include <stdint.h>
typedef struct { int32_t type; int32_t ishared; uint64_t seed; char path[160]; } op_t;
typedef struct { uint64_t hash; int64_t rc; int64_t n; double v[5]; } result_t;
#ifdef __cplusplus
extern "C"
#endif
void op_run(const op_t* op, const void* shared, result_t* out);
