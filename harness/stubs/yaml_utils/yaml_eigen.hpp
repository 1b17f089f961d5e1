// Stand-in for machines-in-motion/yaml_utils, which is not installed here:
// YAML conversions of Eigen matrices and vectors, and ReadParameter.
// Vectors are flat sequences, matrices sequences of equally long rows.
#pragma once
#include <iomanip>
#include <sstream>
#include <iostream>
#include <string>
#include <vector>
#include <stdexcept>
#include <Eigen/Dense>
#include <yaml-cpp/yaml.h>

namespace YAML {
template <typename S, int R, int C, int O, int MR, int MC>
struct convert<Eigen::Matrix<S, R, C, O, MR, MC>> {
  typedef Eigen::Matrix<S, R, C, O, MR, MC> M;
  static Node encode(const M& m) {
    Node n(NodeType::Sequence);
    if (C == 1) { for (int i = 0; i < m.rows(); i++) n.push_back(m(i, 0)); }
    else for (int i = 0; i < m.rows(); i++) { Node r(NodeType::Sequence); for (int j = 0; j < m.cols(); j++) r.push_back(m(i, j)); n.push_back(r); }
    n.SetStyle(EmitterStyle::Flow);
    return n;
  }
  static bool decode(const Node& n, M& m) {
    if (!n.IsSequence()) return false;
    int r = (int)n.size(), c = 1;
    if (C != 1) c = r ? (int)n[0].size() : (C < 0 ? 0 : C);
    if ((R >= 0 && r != R) || (C >= 0 && c != C)) return false;
    M t; t.resize(r, c);
    for (int i = 0; i < r; i++) {
      if (C == 1) { t(i, 0) = n[i].template as<S>(); continue; }
      if (!n[i].IsSequence() || (int)n[i].size() != c) return false;
      for (int j = 0; j < c; j++) t(i, j) = n[i][j].template as<S>();
    }
    m = t;
    return true;
  }
};

template <typename T>
T ReadParameter(const YAML::Node& node, const std::string& name) {
  try { return node[name.c_str()].as<T>(); }
  catch (...) { throw std::runtime_error("Error reading the yaml parameter [" + name + "]"); }
}
template <typename T>
void ReadParameter(const YAML::Node& node, const std::string& name, T& out, bool optional = false) {
  if (optional && !node[name.c_str()]) return;
  out = ReadParameter<T>(node, name);
}
}
