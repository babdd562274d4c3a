// Used only when main.cpp cannot be compiled in: the same sequence by hand.
#include <string>
#include "admin.h"
#include "append.h"
#include "compress.h"
#include "config.h"
#include "fd.h"
#include "logger.h"
#include "memmgr.h"
#include "query.h"
#include "rollup.h"
#include "stats.h"
#include "timer.h"
#include "tsdb.h"
#include "utils.h"
using namespace tt;
namespace vh
{
void boot_initialize(const std::string &conf, const std::string &)
{
    g_config_file = conf;
    g_quiet = true;
    g_thread_id = "main";
    set_hostname_working_dir();
    Config::init();
    FileDescriptorManager::init();
    create_dir(Config::get_data_dir());
    create_dir(Config::get_log_dir());
    Logger::init();
    Tag_v2::init();
    MemoryManager::init();
    Compressor::initialize();
    Tsdb::init();
    RollupManager::init();
    AppendLog::init();
    Stats::init();
    Admin::init();
    Timer::inst()->start();
}
void boot_shutdown()
{
    g_shutdown_requested = true;
    Timer::inst()->stop();
    Tsdb::shutdown();
    RollupManager::shutdown();
    AppendLog::shutdown();
    Stats::cleanup();
    Logger::inst()->close();
}
}
