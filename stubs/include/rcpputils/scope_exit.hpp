#pragma once
#include <type_traits>
#include <utility>
namespace rcpputils
{
template<typename CallableT>
class scope_exit final
{
public:
  explicit scope_exit(CallableT && callable) : callable_(std::forward<CallableT>(callable)) {}
  scope_exit(const scope_exit &) = delete;
  scope_exit(scope_exit && other) : cancelled_(other.cancelled_), callable_(std::move(other.callable_)) {other.cancelled_ = true;}
  scope_exit & operator=(const scope_exit &) = delete;
  scope_exit & operator=(scope_exit &&) = delete;
  ~scope_exit() {if (!cancelled_) {callable_();}}
  void cancel() {cancelled_ = true;}
private:
  bool cancelled_{false};
  CallableT callable_;
};
template<typename CallableT>
scope_exit<CallableT> make_scope_exit(CallableT && callable)
{
  return scope_exit<CallableT>(std::forward<CallableT>(callable));
}
}  // namespace rcpputils
#define RCPPUTILS_STRING_JOIN_IMPL(arg1, arg2) arg1 ## arg2
#define RCPPUTILS_STRING_JOIN(arg1, arg2) RCPPUTILS_STRING_JOIN_IMPL(arg1, arg2)
#define RCPPUTILS_SCOPE_EXIT(code) \
  auto RCPPUTILS_STRING_JOIN(scope_exit_, __LINE__) = rcpputils::make_scope_exit([&]() {code;})
