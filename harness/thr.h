// Deterministic stand-ins for starting and joining threads: a started thread
// runs to completion either at once or when it is joined.
#pragma once
#include <pthread.h>
#include <functional>
#include <memory>
#include <thread>
#include <vector>
namespace sxthr {
inline std::vector<std::function<void()>>& all() { static std::vector<std::function<void()>> v; return v; }
inline bool& late() { static bool l = false; return l; }
inline void run(size_t i) {
    auto f = std::move(all()[i]);
    all()[i] = nullptr;
    if (f) f();
}
}
void std::thread::_M_start_thread(_State_ptr st, void (*)()) {
    std::shared_ptr<_State> p(st.release());
    sxthr::all().push_back([p] { p->_M_run(); });
    size_t i = sxthr::all().size() - 1;
    *reinterpret_cast<native_handle_type*>(&_M_id) = (native_handle_type)(i + 1);
    if (!sxthr::late()) sxthr::run(i);
}
void std::thread::join() {
    size_t i = (size_t)native_handle() - 1;
    _M_id = id();
    sxthr::run(i);
}
