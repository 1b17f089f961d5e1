#pragma once
#include <yaml_utils/yaml_eigen.hpp>
