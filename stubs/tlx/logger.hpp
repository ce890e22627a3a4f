// stand-in for tlx (not in the tree): logging is discarded
#pragma once
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
namespace sxstub {
struct NullLog { template <class T> NullLog& operator<<(const T&) { return *this; } };
template <class... T> inline NullLog& slog(const T&...) { static NullLog n; return n; }
}
#define SXSTUB_LOGC(c) if (true) {} else sxstub::NullLog()
#define LOGC(c) SXSTUB_LOGC(c)
#define LOG SXSTUB_LOGC(0)
#define LOG0 SXSTUB_LOGC(0)
#define LOG1 SXSTUB_LOGC(0)
#define sLOG SXSTUB_LOGC(0)
#define sLOG0 SXSTUB_LOGC(0)
#define sLOG1 SXSTUB_LOGC(0)
