#include "asio.hpp"
