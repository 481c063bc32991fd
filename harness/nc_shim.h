// Compiled before every source of the new core: today's name of what the prototype was written for.
#include <boost/interprocess/detail/atomic.hpp>
#include <boost/version.hpp>
#if BOOST_VERSION >= 104800
namespace boost { namespace interprocess { namespace detail = ipcdetail; } }
#endif
