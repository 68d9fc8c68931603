// Driver: instantiates future / poller / storage / result and the gsl helpers.
#include <algorithm>
#include <functional>
#include <utility>
#include <libcopp/future/future.h>
#include <libcopp/utils/gsl/not_null.h>
#include <libcopp/utils/gsl/span.h>
#include <string>
namespace F = LIBCOPP_COPP_NAMESPACE_ID::future;
struct drv_triv { int a; long b; };
template class LIBCOPP_COPP_NAMESPACE_ID::future::future<int>;
template class LIBCOPP_COPP_NAMESPACE_ID::future::future<void>;
template class LIBCOPP_COPP_NAMESPACE_ID::future::future<std::string>;
template class LIBCOPP_COPP_NAMESPACE_ID::future::future<drv_triv>;
template class LIBCOPP_COPP_NAMESPACE_ID::future::poller<int>;
template class LIBCOPP_COPP_NAMESPACE_ID::future::poller<void>;
template class LIBCOPP_COPP_NAMESPACE_ID::future::poller<std::string>;
template struct LIBCOPP_COPP_NAMESPACE_ID::future::default_compact_storage<int>;
template struct LIBCOPP_COPP_NAMESPACE_ID::future::default_compact_storage<std::string>;
template class LIBCOPP_COPP_NAMESPACE_ID::future::result_type<int, drv_triv>;
template class LIBCOPP_COPP_NAMESPACE_ID::future::result_type<std::string, int>;
template class LIBCOPP_COPP_NAMESPACE_ID::future::result_type<std::string, std::string>;
template class LIBCOPP_COPP_NAMESPACE_ID::future::result_base<int, drv_triv, true>;
template class LIBCOPP_COPP_NAMESPACE_ID::future::result_base<std::string, int, false>;
template class LIBCOPP_COPP_NAMESPACE_ID::future::poller<drv_triv>;
void drv_future_use() {
  F::result_type<int, drv_triv> a = F::result_type<int, drv_triv>::make_success(1);
  F::result_type<int, drv_triv> b = F::result_type<int, drv_triv>::make_error(drv_triv());
  a = b; a = std::move(b);
  auto c = F::result_type<std::string, int>::make_success(std::string("x"));
  auto d = F::result_type<std::string, int>::make_error(1);
  c = std::move(d);
  F::result_type<std::string, int> f(std::move(*c));
  f = std::move(*c);
  F::result_type<int, drv_triv> e(a), g(std::move(a));
  F::poller<int> pi(1); F::poller<std::string> ps(std::string("a")); ps = std::string("b"); pi = 3;
  F::poller<std::string> ps2(std::move(ps)); ps2 = std::move(ps); ps2.swap(ps); ps2.reset();
  F::poller<int> pi2(std::move(pi)); pi2 = std::move(pi); pi2.swap(pi); pi2.reset();
  F::future<int> fi; fi.reset_data(1); F::future<std::string> fs; fs.reset_data(std::string());
  F::poller<std::string> pu(std::unique_ptr<std::string>(new std::string()));
  F::poller<int> pui(std::unique_ptr<int>(new int(1))); pui = std::unique_ptr<int>(new int(2));
  F::poller<void> puv(std::unique_ptr<int>(new int(1))); puv = true; F::poller<void> pv2(std::move(puv)); pv2.swap(puv);
  F::poller<drv_triv> pt; drv_triv t0 = drv_triv(); pt = t0; F::poller<drv_triv> pt2(std::move(pt)); pt = std::move(pt2); pt.swap(pt2);
  F::future<drv_triv> ft; ft.reset_data(std::move(t0)); ft.reset_data(std::unique_ptr<drv_triv>(new drv_triv()));
  auto r1 = F::result_type<int, drv_triv>::create_success(1); r1 = F::result_type<int, drv_triv>::create_error(t0);
  auto r2 = F::result_type<std::string, int>::create_success(std::string("x")); r2 = F::result_type<std::string, int>::create_error(1);
  swap(r1, a); swap(r2, f); swap(pt, pt2);
}
