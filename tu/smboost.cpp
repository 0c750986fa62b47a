#include <sm_boost/JobQueue.hpp>
#include <sm_boost/portable_binary_archive.hpp>
#include <sm_boost/serialization.hpp>
