// Starts and stops the database inside the harness process exactly as the
// server binary does: main.cpp is compiled in with its entry point renamed, so
// the same initialize()/shutdown() sequences run.
#define main tt_server_main
#include "main.cpp"
#undef main

namespace vh
{
void boot_initialize(const std::string &conf, const std::string &pidfile)
{
    tt::g_config_file = conf;
    tt::g_quiet = true;
    tt::g_pid_file = pidfile;
    ::initialize();
}

void boot_shutdown()
{
    ::shutdown();
}
}
