// Driver: instantiates the stackful-coroutine templates so that the extractor sees them type-checked.
#include <algorithm>
#include <functional>
#include <utility>
#include <libcopp/coroutine/coroutine_context_container.h>
#include <libcopp/stack/stack_pool.h>
#include <libcopp/stack/allocator/stack_allocator_pool.h>
#include <libcopp/stack/allocator/stack_allocator_malloc.h>
#include <libcopp/stack/allocator/stack_allocator_memory.h>
#include <libcopp/stack/allocator/stack_allocator_posix.h>
#include <libcopp/utils/lock_holder.h>
#include <libcopp/utils/spin_lock.h>
#include <libcopp/utils/uint64_id_allocator.h>
#include <libcopp/utils/intrusive_ptr.h>
namespace A = LIBCOPP_COPP_NAMESPACE_ID::allocator;
namespace C = LIBCOPP_COPP_NAMESPACE_ID;
using pool_t = C::stack_pool<A::stack_allocator_malloc>;
using pool2_t = C::stack_pool<A::stack_allocator_posix>;
template class LIBCOPP_COPP_NAMESPACE_ID::stack_pool<A::stack_allocator_malloc>;
template class LIBCOPP_COPP_NAMESPACE_ID::stack_pool<A::stack_allocator_posix>;
template class A::stack_allocator_pool<pool_t>;
template class A::stack_allocator_pool<pool2_t>;
template class LIBCOPP_COPP_NAMESPACE_ID::coroutine_context_container<A::stack_allocator_malloc>;
template class LIBCOPP_COPP_NAMESPACE_ID::coroutine_context_container<A::stack_allocator_posix>;
template class LIBCOPP_COPP_NAMESPACE_ID::coroutine_context_container<A::stack_allocator_pool<pool_t>>;
template class LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<C::util::lock::spin_lock, C::util::lock::detail::default_lock_action<C::util::lock::spin_lock>>;
template class LIBCOPP_COPP_NAMESPACE_ID::util::intrusive_ptr<C::coroutine_context_default>;
template class LIBCOPP_COPP_NAMESPACE_ID::util::lock::atomic_int_type<int>;
template class LIBCOPP_COPP_NAMESPACE_ID::util::lock::atomic_int_type<size_t>;
struct runner_t { int operator()(void*); };
void drv_use_ctx() {
  C::coroutine_context_default::ptr_t p = C::coroutine_context_default::create(static_cast<runner_t*>(nullptr), size_t(65536));
  p->start();
  C::util::intrusive_ptr<C::coroutine_context_default> a, b(p), c(std::move(b));
  a = c; a = std::move(c); a.swap(b); a.reset(); a.reset(b.get()); b.detach();
  C::util::lock::spin_lock l;
  { C::util::lock::lock_holder<C::util::lock::spin_lock> h(l); h.is_available(); }
  { C::util::lock::lock_holder<C::util::lock::spin_lock> h(l), k(std::move(h)); k.reset(); k = std::move(h); }
  pool_t::ptr_t sp = pool_t::create();
  A::stack_allocator_pool<pool_t> al(sp);
  auto q = C::coroutine_context_container<A::stack_allocator_pool<pool_t>>::create(static_cast<runner_t*>(nullptr), al);
  A::stack_allocator_memory am;
  auto qm = C::coroutine_context_container<A::stack_allocator_memory>::create(static_cast<runner_t*>(nullptr), am);
  qm->start();
}
