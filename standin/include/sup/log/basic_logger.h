// Stand-in for sup-utils' sup::log.
#pragma once
#include <functional>
#include <string>
namespace sup
{
namespace log
{
using LogFunction = std::function<void(int, const std::string&, const std::string&)>;
class BasicLogger
{
public:
  BasicLogger(LogFunction fn, const std::string& source, int max_severity)
    : m_fn{std::move(fn)}, m_source{source}, m_max{max_severity}
  {}
  int SetMaxSeverity(int severity)
  {
    auto r = m_max;
    m_max = severity;
    return r;
  }
  int GetMaxSeverity() const { return m_max; }
  void LogMessage(int severity, const std::string& message) const
  {
    if (severity <= m_max)
    {
      m_fn(severity, m_source, message);
    }
  }

private:
  LogFunction m_fn;
  std::string m_source;
  int m_max;
};
}  // namespace log
}  // namespace sup
