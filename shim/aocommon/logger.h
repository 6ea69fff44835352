// Stand-in for aocommon/logger.h (the library is not installed here).
#ifndef AOCOMMON_LOGGER_H_
#define AOCOMMON_LOGGER_H_
#include <atomic>
#include <iomanip>
#include <iostream>
#include <mutex>
#include <sstream>
#include <stdexcept>
#include <string>
namespace aocommon {
class Logger {
 public:
  enum LoggerLevel { kNoLevel = 5, kFatalLevel = 4, kErrorLevel = 3, kWarningLevel = 2, kInfoLevel = 1, kDebugLevel = 0 };
  class LogWriter {
   public:
    template <typename T>
    LogWriter& operator<<(const T&) {
      messages.fetch_add(1, std::memory_order_relaxed);
      return *this;
    }
    LogWriter& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
    void Flush() {}
    LogWriter() : messages(0) {}
    std::atomic<size_t> messages;
  };
  static LogWriter Debug, Info, Warn, Error, Fatal, Progress;
  static void SetVerbosity(int) {}
  static bool IsVerbose() { return false; }
  static void SetLogTime(bool) {}
  static void SetLogMemory(bool) {}
};
inline Logger::LogWriter Logger::Debug, Logger::Info, Logger::Warn, Logger::Error, Logger::Fatal, Logger::Progress;
inline int StringToLogVerbosityLevel(const std::string& s) {
  if (s == "quiet") return 2;
  if (s == "normal") return 1;
  if (s == "verbose") return 0;
  throw std::runtime_error("Unknown verbosity " + s);
}
}  // namespace aocommon
#endif
