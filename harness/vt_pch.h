#pragma once
#include <iostream>
#include <fstream>
#include <sstream>
#include <functional>
#include <thread>
#include <string>
#include <atomic>
#include <mutex>
#include <random>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <chrono>
#include <regex>
#include <tuple>
#include <numeric>
#include <condition_variable>
#include <experimental/filesystem>
namespace fs = std::experimental::filesystem;
#include <any>
#include <variant>
#include <type_traits>
#include <queue>
#include <cstring>
#include <lm/lm.h>
#include <lm/assetgroup.h>
#include <lm/model.h>
#include <lm/medium.h>
#include <lm/phase.h>
#include <lm/volume.h>
#include <lm/scheduler.h>
#include <lm/loggercontext.h>
#include <lm/progresscontext.h>
#include <lm/parallelcontext.h>
#include <lm/objloader.h>
#include <lm/path.h>
