#ifndef FSIM_SCEN_H
#define FSIM_SCEN_H
#include "harness.h"
#include "gen.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <unistd.h>
#include <linux/btrfs.h>
#include <linux/fs.h>
using std::string;
typedef std::unique_lock<std::recursive_mutex> Lk;
#define S(x) std::to_string(x)

void base_config(Harness &h);
bool settle(Harness &h, double timeout, const string &what, bool data_only = false);
// Waits for the end state that 'ok' describes.  A daemon that is slow to start on
// something is given more time before the state is judged.
bool settle_until(Harness &h, double timeout, const string &what, const std::function<bool()> &ok, bool data_only = false);
void random_delays(Harness &h, double p = 1.0);     // installs delay rules
// duplicates of the files of strict families must be gone
void require_deduped(Harness &h, const std::vector<Family> &fams, const string &prop, const string &when, const std::function<bool(const Family &)> &strict);

bool deduped(Harness &h, const std::vector<Family> &fams, const std::function<bool(const Family &)> &strict);
// What a saved beescrawl.dat claims
struct CrawlLine { u64 root = 0, objectid = 0, offset = 0, min_t = 0, max_t = 0; };
std::vector<CrawlLine> parse_crawl(const string &s);
// An extent as seen at some moment: enough to decide later whether it had been read
struct ExtSnap { u64 id, bytenr, len, gen; u64 nblk, nread; std::vector<RefKey> refs; };

ScenarioFn find_crash(const string &);
ScenarioFn find_misc(const string &);
ScenarioFn find_opts(const string &);
#endif
