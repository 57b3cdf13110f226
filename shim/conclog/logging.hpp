// Stand-in for the conclog submodule (absent here): logging that does nothing.
#ifndef VERIF_SHIM_CONCLOG_LOGGING_HPP
#define VERIF_SHIM_CONCLOG_LOGGING_HPP
#include <string>
#include <map>
#include <ostream>
#include <sstream>
#include <mutex>
#include <memory>
#include <vector>
#include <iomanip>

#define CONCLOG_SCOPE_CREATE
#define CONCLOG_PRINTLN(text) { }
#define CONCLOG_PRINTLN_AT(level,text) { }
#define CONCLOG_PRINTLN_VAR(var) { }
#define CONCLOG_PRINTLN_VAR_AT(level,var) { }
#define CONCLOG_SCOPE_PRINTHOLD(text) { }
#define CONCLOG_RUN_AT(level,fn) fn;
#define CONCLOG_RUN_MUTED(fn) fn;

namespace ConcLog {
struct TerminalTextStyle { };
struct TerminalTextTheme { bool has_style() const { return false; } };
inline const TerminalTextTheme TT_THEME_NONE, TT_THEME_LIGHT, TT_THEME_DARK;
inline std::ostream& operator<<(std::ostream& os, TerminalTextTheme const&) { return os; }
class LoggerConfiguration {
    unsigned int _verbosity=0;
    TerminalTextTheme _theme;
  public:
    void set_verbosity(unsigned int v) { _verbosity=v; }
    unsigned int verbosity() const { return _verbosity; }
    void set_theme(TerminalTextTheme const&) { }
    TerminalTextTheme const& theme() const { return _theme; }
    void add_custom_keyword(std::string const&) { }
    void set_prints_level_on_change_only(bool) { }
    void set_thread_name_printing_policy(int) { }
};
class Logger {
    LoggerConfiguration _configuration;
  public:
    static Logger& instance() { static Logger l; return l; }
    LoggerConfiguration& configuration() { return _configuration; }
    void use_immediate_scheduler() { }
    void use_blocking_scheduler() { }
    void use_nonblocking_scheduler() { }
    void redirect_to_console() { }
};
} // namespace ConcLog
#endif
