// Simulated disk (files below /simdisk/).
#pragma once
#include <string>
#include <vector>
namespace sim {
struct FsCfg {
  double p_open = 0, p_short_read = 0, p_eintr = 0, p_short_write = 0, p_close = 0;
  long read_err_at = -1;        // reading at or past this byte fails
  long space = -1;              // bytes left on the disk
  bool space_once = false;      // the full disk gets space again after one refusal
  long write_err_after = -1;    // bytes until a write fails
  bool write_err_sticky = true;
};
struct FsStat { long open_failed = 0, open_missing = 0, read_failed = 0, write_failed = 0, close_failed = 0, written = 0; };
struct FsWrite { std::string path; bool truncate; std::string data; };
void fs_begin();
FsCfg& fs_cfg();
FsStat& fs_stat();
void fs_put(const std::string& path, const std::string& bytes);
bool fs_get(const std::string& path, std::string& bytes);
void fs_remove(const std::string& path);
std::vector<std::string> fs_list();
const std::vector<FsWrite>& fs_log();
void fs_log_clear();
int fs_open_files();
}
