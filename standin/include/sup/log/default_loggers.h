#pragma once
#include <sup/log/basic_logger.h>
namespace sup
{
namespace log
{
class DefaultLogger : public BasicLogger
{
public:
  using BasicLogger::BasicLogger;
  void Emergency(const std::string& m) const { LogMessage(0, m); }
  void Alert(const std::string& m) const { LogMessage(1, m); }
  void Critical(const std::string& m) const { LogMessage(2, m); }
  void Error(const std::string& m) const { LogMessage(3, m); }
  void Warning(const std::string& m) const { LogMessage(4, m); }
  void Notice(const std::string& m) const { LogMessage(5, m); }
  void Info(const std::string& m) const { LogMessage(6, m); }
  void Debug(const std::string& m) const { LogMessage(7, m); }
  void Trace(const std::string& m) const { LogMessage(8, m); }
};
inline std::string DefaultStdoutLogMessage(int severity, const std::string& source,
                                           const std::string& message)
{
  return "[" + source + "] " + std::to_string(severity) + ": " + message;
}
// Takes the place of the system log.
inline LogFunction& SysLogSink()
{
  static LogFunction sink;
  return sink;
}
inline DefaultLogger CreateDefaultSysLogger(const std::string& source)
{
  return DefaultLogger([](int severity, const std::string& src, const std::string& message)
  {
    if (SysLogSink())
    {
      SysLogSink()(severity, src, message);
    }
  }, source, 4);
}
}  // namespace log
}  // namespace sup
