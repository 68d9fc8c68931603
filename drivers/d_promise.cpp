// Driver: instantiates the C++20 coroutine layer (callable/generator/task futures, task_manager, some/any/all).
#include <algorithm>
#include <functional>
#include <utility>
#include <libcopp/coroutine/algorithm.h>
#include <libcopp/coroutine/callable_promise.h>
#include <libcopp/coroutine/generator_promise.h>
#include <libcotask/task_manager.h>
#include <libcotask/task_promise.h>
#include <list>
#include <string>
#include <unordered_set>
namespace C = LIBCOPP_COPP_NAMESPACE_ID;
namespace T = LIBCOPP_COTASK_NAMESPACE_ID;
struct drv_priv { int a; };
struct drv_str : public std::string {
  using std::string::string;
  drv_str() {}
  explicit drv_str(C::promise_status) {}
};

template class LIBCOPP_COPP_NAMESPACE_ID::callable_future<int>;
template class LIBCOPP_COPP_NAMESPACE_ID::callable_future<void>;
template class LIBCOPP_COPP_NAMESPACE_ID::callable_future<drv_str>;
template class LIBCOPP_COPP_NAMESPACE_ID::generator_future<int>;
template class LIBCOPP_COPP_NAMESPACE_ID::generator_future<void>;
template class LIBCOPP_COPP_NAMESPACE_ID::generator_future<drv_str>;
using fut_vp = T::task_future<void, drv_priv>;
using fut_ip = T::task_future<int, drv_priv>;
using fut_sp = T::task_future<drv_str, drv_priv>;
using fut_i = T::task_future<int, void>;
using fut_v = T::task_future<void, void>;
using fut_s = T::task_future<drv_str, void>;
template class LIBCOPP_COTASK_NAMESPACE_ID::task_future<void, drv_priv>;
template class LIBCOPP_COTASK_NAMESPACE_ID::task_future<int, drv_priv>;
template class LIBCOPP_COTASK_NAMESPACE_ID::task_future<drv_str, drv_priv>;
template class LIBCOPP_COTASK_NAMESPACE_ID::task_future<int, void>;
template class LIBCOPP_COTASK_NAMESPACE_ID::task_future<void, void>;
template class LIBCOPP_COTASK_NAMESPACE_ID::task_future<drv_str, void>;
template <class V>
using drv_err = C::promise_error_transform<V>;
template class LIBCOPP_COTASK_NAMESPACE_ID::task_future_base<int, drv_priv, drv_err<int>>;
template class LIBCOPP_COTASK_NAMESPACE_ID::task_future_base<drv_str, void, drv_err<drv_str>>;
template class LIBCOPP_COTASK_NAMESPACE_ID::task_future_base<void, void, drv_err<void>>;
template class LIBCOPP_COTASK_NAMESPACE_ID::task_context_base<int>;
template class LIBCOPP_COTASK_NAMESPACE_ID::task_context_base<drv_str>;
template class LIBCOPP_COTASK_NAMESPACE_ID::task_context_base<void>;
template class LIBCOPP_COPP_NAMESPACE_ID::generator_context_base<int>;
template class LIBCOPP_COPP_NAMESPACE_ID::generator_context_base<drv_str>;
template class LIBCOPP_COPP_NAMESPACE_ID::generator_context_base<void>;
template class LIBCOPP_COPP_NAMESPACE_ID::generator_context<int, drv_err<int>>;
template class LIBCOPP_COPP_NAMESPACE_ID::generator_context<drv_str, drv_err<drv_str>>;
template class LIBCOPP_COPP_NAMESPACE_ID::generator_context<void, drv_err<void>>;
template class LIBCOPP_COPP_NAMESPACE_ID::generator_context_delegate<void, drv_err<void>, true>;
template class LIBCOPP_COTASK_NAMESPACE_ID::task_manager<fut_ip>;
template class LIBCOPP_COTASK_NAMESPACE_ID::task_manager<fut_v>;
static C::callable_future<int> drv_c_i() { co_return 1; }
static C::callable_future<void> drv_c_v() { co_return; }
static C::callable_future<drv_str> drv_c_s() { co_return drv_str(); }
static fut_ip drv_t_ip() { auto p = co_yield T::task_private_data<drv_priv>(); (void)p; co_return 1; }
static fut_vp drv_t_vp() { co_return; }
static fut_sp drv_t_sp() { co_return drv_str(); }
static fut_i drv_t_i() { auto id = co_yield T::task_pick_id<T::task_future<int, void>::id_type>(); (void)id; co_return 1; }
static fut_v drv_t_v() { co_return; }
static fut_s drv_t_s() { co_return drv_str(); }
static C::callable_future<int> drv_all_from_callable() {
  int a = co_await drv_c_i();
  co_await drv_c_v();
  drv_str s = co_await drv_c_s();
  a += co_await drv_t_ip();
  co_await drv_t_vp();
  s = co_await drv_t_sp();
  auto t = drv_t_i();
  a += co_await t;
  auto tv = drv_t_v();
  co_await tv;
  auto ts = drv_t_s();
  s = co_await ts;
  C::generator_future<int> g([](C::generator_future<int>::context_pointer_type) {});
  g.get_context()->set_value(7);
  a += co_await g;
  C::generator_future<void> gv([](C::generator_future<void>::context_pointer_type) {});
  co_await gv;
  C::generator_future<drv_str> gs([](C::generator_future<drv_str>::context_pointer_type) {});
  gs.get_context()->set_value(drv_str("x"));
  s = co_await gs;
  auto st = co_yield C::callable_future<int>::yield_status();
  (void)st;
  co_return a;
}
static fut_v drv_all_from_task() {
  int a = co_await drv_c_i();
  co_await drv_c_v();
  drv_str s = co_await drv_c_s();
  auto t = drv_t_ip();
  a += co_await t;
  auto tv = drv_t_vp();
  co_await tv;
  auto ts = drv_t_sp();
  s = co_await ts;
  C::generator_future<int> g([](C::generator_future<int>::context_pointer_type) {});
  g.get_context()->set_value(7);
  a += co_await g;
  C::generator_future<void> gv([](C::generator_future<void>::context_pointer_type) {});
  co_await gv;
  C::generator_future<drv_str> gs([](C::generator_future<drv_str>::context_pointer_type) {});
  gs.get_context()->set_value(drv_str("x"));
  s = co_await gs;
  co_return;
}
template <class TFUT>
static C::callable_future<int> drv_algo() {
  std::vector<TFUT> pending;
  typename C::some_ready<TFUT>::type readys;
  auto a = co_await C::some(readys, 2, pending);
  typename C::any_ready<TFUT>::type anyr;
  auto b = co_await C::any(anyr, C::gsl::make_span(pending));
  typename C::all_ready<TFUT>::type allr;
  auto c = co_await C::all(allr, pending);
  std::vector<std::reference_wrapper<TFUT>> refs;
  auto d = co_await C::all(allr, refs);
  (void)a; (void)b; (void)c; (void)d;
  co_return 0;
}
static C::callable_future<int> drv_algo_all() {
  co_await drv_algo<C::generator_future<int>>();
  co_await drv_algo<C::callable_future<int>>();
  co_await drv_algo<fut_v>();
  co_await drv_algo<fut_ip>();
  co_await drv_algo<C::generator_future<drv_str>>();
  co_return 0;
}
void drv_promise_use() {
  auto a = drv_all_from_callable();
  auto b = drv_all_from_task();
  auto c = drv_algo_all();
  a.kill();
  auto m = T::task_manager<fut_ip>::create();
  auto t = drv_t_ip();
  m->add_task(t); m->add_task(t, 1, 0); m->tick(1, 0); m->reset(); m->kill(1); m->start(1);
  auto u = t.then([](const fut_ip::context_pointer_type&, int) {});
  auto v = drv_t_v().then([](const fut_v::context_pointer_type&) -> int { return 1; });
  auto w = drv_t_i().then([](const fut_i::context_pointer_type&, int) -> C::callable_future<int> { co_return 1; });
  auto x = drv_t_i().then([](const fut_i::context_pointer_type&, int) -> fut_v { co_return; });
  (void)u; (void)v; (void)w; (void)x;
}
