// Random programs over the whole public interface, without a model.
#pragma once
#include "common.hpp"
struct FreeOpt {
  int steps = 30;
  bool hostile = true;   // also make requests that must be rejected
  bool backward = true;
  bool randn = false;    // results then are not reproducible
  bool render = true;    // put every result into the trace
  size_t maxnumel = 200;
  // tensors of others: may be read, must not be written
  std::vector<Tensor> *shared = nullptr;
};
struct FreeStat {
  uint64_t calls = 0, rejected = 0, backwards = 0, kinds[32] = {};
};
// Runs the program that `r` determines; returns everything it showed.
std::string run_free(Rng &r, const FreeOpt &o, FreeStat &st);
