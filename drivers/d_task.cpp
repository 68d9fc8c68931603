// Driver: instantiates the stackful task layer (task<>, task_manager<task<>>) and its awaitables.
#include <algorithm>
#include <functional>
#include <utility>
#include <libcotask/task.h>
#include <libcotask/task_manager.h>
#include <libcotask/this_task.h>
#include <libcopp/coroutine/callable_promise.h>
#include <libcopp/coroutine/generator_promise.h>
#include <libcopp/stack/stack_pool.h>
namespace C = LIBCOPP_COPP_NAMESPACE_ID;
namespace T = LIBCOPP_COTASK_NAMESPACE_ID;
using task_t = T::task<>;
using mgr_t = T::task_manager<task_t>;
struct drv_pool_coroutine {
  using stack_allocator_type = C::allocator::stack_allocator_pool<C::stack_pool<C::allocator::stack_allocator_malloc>>;
  using coroutine_type = C::coroutine_context_container<stack_allocator_type>;
  using value_type = int;
};
struct drv_action : public T::impl::task_action_impl {
  int operator()(void*) override;
};
struct drv_obj { int run(void*); };
int drv_fn(void*);
template class LIBCOPP_COTASK_NAMESPACE_ID::task<>;
template class LIBCOPP_COTASK_NAMESPACE_ID::task<drv_pool_coroutine>;
template class LIBCOPP_COTASK_NAMESPACE_ID::task_manager<task_t>;
template class LIBCOPP_COPP_NAMESPACE_ID::util::intrusive_ptr<task_t>;
static C::callable_future<int> drv_await(task_t::ptr_t t) { int r = co_await t; co_return r; }
static C::callable_future<void> drv_await2(task_t::ptr_t t) { co_await T::task<>::ptr_type(t); co_return; }
void drv_task_use() {
  task_t::ptr_t t = task_t::create([](void*) -> int { return 0; });
  task_t::ptr_t u = task_t::create([]() -> int { return 0; });
  task_t::ptr_t v = task_t::create(&drv_fn);
  drv_obj o;
  task_t::ptr_t w = task_t::create(&drv_obj::run, &o);
  task_t::coroutine_type::allocator_type al0;
  task_t::ptr_t x = task_t::create_with<drv_action>(al0, 0, 0);
  int cnt = 0;
  task_t::create([cnt](void*) mutable -> int { return ++cnt; });
  task_t::create([cnt]() mutable -> int { return ++cnt; });
  task_t::create([cnt](void*) mutable { ++cnt; });
  task_t::create([cnt]() mutable { ++cnt; });
  task_t::create([](void*) {});
  task_t::create([]() {});
  t->next(u);
  t->next([](void*) -> int { return 0; });
  t->then(v);
  t->then([](void*) -> int { return 0; });
  t->await_task(w);
  t->start(); t->resume(); t->yield(); t->cancel(); t->kill(T::EN_TS_KILLED);
  task_t::ptr_t z = t; z = std::move(u);
  auto f = drv_await(t);
  auto g = drv_await2(t);
  f.kill();
  T::task<drv_pool_coroutine>::ptr_t p;
  C::stack_pool<C::allocator::stack_allocator_malloc>::ptr_t pool = C::stack_pool<C::allocator::stack_allocator_malloc>::create();
  T::task<drv_pool_coroutine>::stack_allocator_type al(pool);
  p = T::task<drv_pool_coroutine>::create([](void*) -> int { return 0; }, al);
  mgr_t::ptr_t m = mgr_t::create();
  m->add_task(t); m->add_task(t, 1, 0); m->tick(1, 0); m->reset(); m->kill(1, T::EN_TS_KILLED); m->start(1); m->resume(1);
  m->set_timeout(1, 1, 0); m->find_task(1); m->remove_task(1);
  T::this_task::get_task(); T::this_task::get<task_t>();
}
