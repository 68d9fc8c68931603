// Instantiations for the analysis (never executed): reference counting pointer, lock holders.
#include <algorithm>
#include <functional>
#include <utility>
#include <libcopp/utils/intrusive_ptr.h>
#include <libcopp/utils/lock_holder.h>
#include <libcopp/utils/spin_lock.h>
#include <libcopp/utils/uint64_id_allocator.h>
#include <memory>
namespace C = LIBCOPP_COPP_NAMESPACE_ID;

struct drv_base { virtual ~drv_base(); int v; };
struct drv_obj : drv_base { int w; };
void intrusive_ptr_add_ref(drv_base *);
void intrusive_ptr_release(drv_base *);
void intrusive_ptr_add_ref(drv_obj *);
void intrusive_ptr_release(drv_obj *);
using PB = C::util::intrusive_ptr<drv_base>;
using PO = C::util::intrusive_ptr<drv_obj>;
template class LIBCOPP_COPP_NAMESPACE_ID::util::intrusive_ptr<drv_base>;
void drv_intrusive(PO &o, PB &b, PB &c, drv_obj *raw, drv_base *rb, std::unique_ptr<drv_obj> &&u) {
  PB x(o);
  PB y(std::move(o));
  x = o;
  x = std::move(b);
  x = b;
  PB z(raw), w(rb, false);
  z = std::move(u);
  z.reset();
  z.reset(rb);
  w.reset(rb, false);
  swap(b, c);
  z.swap(w);
  w = C::util::static_pointer_cast<drv_base>(o);
  w = C::util::const_pointer_cast<drv_base>(b);
  o = C::util::dynamic_pointer_cast<drv_obj>(b);
  if (b == c && b != o && b == rb && rb == b && b == nullptr && nullptr != b && b < c && b <= c && b > c && b >= c && !b) b.detach();
  (void)b.get();
  (void)*b;
  (void)b->v;
}

using SL = C::util::lock::spin_lock;
template class LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<SL, C::util::lock::detail::default_try_lock_action<SL>, C::util::lock::detail::default_try_unlock_action<SL>>;
struct drv_rw { void read_lock(); void read_unlock(); void write_lock(); void write_unlock(); };
void drv_holders(SL &l, drv_rw &r) {
  C::util::lock::lock_holder<SL, C::util::lock::detail::default_try_lock_action<SL>, C::util::lock::detail::default_try_unlock_action<SL>> h(l);
  C::util::lock::read_lock_holder<drv_rw> a(r);
  C::util::lock::write_lock_holder<drv_rw> b(r);
  h.is_available();
  h.reset();
}
