/* The generated lexer/parser were made by ANTLR 4.12; the installed C++ runtime is
 * 4.10, which lacks these two names. */
#ifdef __cplusplus
#include <mutex>
namespace antlr4 { namespace internal {
typedef std::once_flag OnceFlag;
template <class F> inline void call_once(OnceFlag& f, F&& fn) { std::call_once(f, std::forward<F>(fn)); }
}}
#endif
