// contracts of the Boost libraries boost.thread depends on (chrono clocks, date_time clock): trusted base
#pragma once
#include "vc_env.h"
#include <boost/chrono/system_clocks.hpp>
#include <boost/chrono/ceil.hpp>
#include <boost/date_time/posix_time/posix_time_types.hpp>
#include <boost/date_time/microsec_time_clock.hpp>
namespace boost { namespace chrono {
inline steady_clock::time_point steady_clock::now() BOOST_NOEXCEPT { return time_point(duration(vc_clock_read(1))); }
inline system_clock::time_point system_clock::now() BOOST_NOEXCEPT { return time_point(duration(vc_clock_read(0))); }
} }
// microseconds since 1970 -> ptime
static inline boost::posix_time::ptime vc_ptime_us(int64_t us) { // 1970-01-01 is 210866803200000000 us after the date_time epoch
  boost::posix_time::ptime::time_rep_type r(boost::date_time::int_adapter<boost::int64_t>(us + 210866803200000000LL)); return boost::posix_time::ptime(r); }
namespace boost { namespace date_time {
template <> inline boost::posix_time::ptime microsec_clock<boost::posix_time::ptime>::universal_time() { return vc_ptime_us(vc_clock_read(0) / 1000); }
} }
