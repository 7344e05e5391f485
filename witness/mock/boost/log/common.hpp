// stand-in: log messages are not part of the analysis
#ifndef VERIF_LOG
#define VERIF_LOG
namespace boost::log {
namespace trivial { enum severity_level { trace, debug, info, warning, error, fatal }; }
namespace keywords { struct Severity { template <class T> int operator=(T) const { return 0; } }; inline Severity severity; inline Severity channel; }
namespace sources { template <class L> struct severity_logger { template <class... A> severity_logger(A...) {} }; template <class L> struct severity_channel_logger { template <class... A> severity_channel_logger(A...) {} }; }
}
struct VerifNullStream { template <class T> VerifNullStream& operator<<(T&&) { return *this; } };
#define BOOST_LOG(l) if (true) {} else VerifNullStream()
#define BOOST_LOG_SEV(l, s) if (true) {} else VerifNullStream()
#define BOOST_LOG_SCOPED_LOGGER_TAG(l, n, v) ((void)(v))
#endif
