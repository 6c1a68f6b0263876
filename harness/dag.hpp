// Random computation graphs with a scalar at the end.
#pragma once
#include "prog.hpp"
struct DagOpt {
  unsigned ops = O_ALL & ~O_DETACH;
  unsigned lean = 0;     // operations to prefer
  int leaves = 3;        // at most
  int steps = 9;         // at most
  size_t leaf_numel = 24;
  bool scalar_roots = true; // the root may be any one-element result
  bool check_forward = true;
};
struct Dag {
  std::vector<P> pool;
  size_t n_leaf = 0; // pool[0 .. n_leaf) are the leaves
  P root;
  bool big = false; // tensors of thousands of elements
  bool huge = false; // tens of thousands
  bool root_in_pool = false;
  size_t root_at = 0;
  std::vector<ld> g, ag;
};
// adds leaves (at least one requires grad)
void dag_leaves(Ctx &c, Dag &d, const DagOpt &o);
// adds operations; false if no result requires grad
bool dag_ops(Ctx &c, Dag &d, const DagOpt &o, int steps);
bool dag_root(Ctx &c, Dag &d, const DagOpt &o);
