// replay build: exit() is an exception, installation paths are used as configured
#include <string>
void sx_exit(int code) { throw SxExit{code}; }
std::string relocated_pathname(const std::string &p) { if (p.size() > 10 && p.substr(p.size() - 10) == "/bin/count") return "./count"; return p; }
std::string relocated_pathname(const char *p) { return relocated_pathname(std::string(p)); }
extern "C" void set_program_name(const char *) {}
