#pragma once
#include <potassco/program_opts/program_options.h>
