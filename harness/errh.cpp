#include "util.hpp"
#include "iox/error_reporting/custom/default/error_handler.hpp"
#include "iox/log/logger.hpp"
#include "iceoryx_platform/logging.hpp"
#include "iox/logging.hpp"
#include <execinfo.h>
#include <signal.h>
#include <unistd.h>

bool g_lastFatal = false;
uint64_t g_errorCount = 0;
std::vector<std::pair<unsigned, unsigned>> g_errorCodes;

namespace
{
class Handler : public iox::er::ErrorHandlerInterface
{
  public:
    void onPanic() override
    {
        fib::Quiet q;
        ++fib::g_fatal;
        g_lastFatal = true;
        if (getenv("FIB_TRACE"))
        {
            void* b[40];
            int n = backtrace(b, 40);
            backtrace_symbols_fd(b, n, 2);
        }
        fib::abandon();
    }
    void onReportError(iox::er::ErrorDescriptor d) override
    {
        fib::Quiet q;
        ++g_errorCount;
        g_errorCodes.push_back({d.module.value, d.code.value});
        if (getenv("FIB_TRACE"))
        {
            fprintf(stderr, "error %u/%u %s:%d %s\n", d.module.value, d.code.value, d.location.file, d.location.line, d.location.function);
        }
    }
    void onReportViolation(iox::er::ErrorDescriptor d) override
    {
        fib::Quiet q;
        if (getenv("FIB_TRACE"))
        {
            fprintf(stderr, "violation %s:%d\n", d.location.file, d.location.line);
        }
        fib::g_errors.push_back(d.location.file ? d.location.file : "");
    }
};
void platformLog(const char*, int, const char*, IceoryxPlatformLogLevel, const char*)
{
}
} // namespace

void installErrorHandler()
{
    if (!getenv("FIB_LOG"))
    {
        iox::log::Logger::init(iox::log::LogLevel::Off);
        iox_platform_set_log_backend(&platformLog);
    }
    else
    {
        iox::log::Logger::init(iox::log::LogLevel::Trace);
    }
    static iox::StaticLifetimeGuard<Handler> guard;
    iox::er::ErrorHandler::set(guard);
}
