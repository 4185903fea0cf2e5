// What slang-pkg talks to besides the disk: a shell with a few commands, and
// repository servers behind libcurl's interface.  Both act on the simulated disk only.
#pragma once
#include "world.h"

namespace pkg {

struct Response { int status = 200; std::string body; };

extern std::map<std::string, Response> server;		// by URL
extern std::vector<std::string> transfers;

struct Faults {
	uint32_t connect = 0, cut = 0, http = 0, initFail = 0;	// transfers, 1/1000
	uint32_t rm = 0, unpack = 0, copy = 0, pack = 0, shell = 0;
	std::string spare;			// transfers of URLs with this suffix do not fail
};
extern Faults faults;

// Observations survive the simulated process in files under /obs.
void observe(const std::string& key, const std::string& line);
std::string observed(const std::string& key);
void forget();

std::string pack(const std::vector<std::pair<std::string, std::string>>& files);
// false: the archive is damaged; files then holds what could be read
bool unpack(const std::string& archive, std::vector<std::pair<std::string, std::string>>& files);

int shell(const std::string& command);		// status as returned by system()

}
