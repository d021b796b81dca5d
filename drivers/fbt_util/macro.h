#pragma once
#define func_used __attribute__((used))
