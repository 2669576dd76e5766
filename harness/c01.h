#pragma once
#include <string>
#include <vector>
// parses `parts` into target `which`; returns the error code
enum
{
  CATALOGUE = 29,
  OTHERS = 34
};
struct Job
{
  std::vector<std::string> parts;
  unsigned opts;      // tokenizer options
  unsigned flags;     // 1: missing members are errors, 2: unassigned members are errors, 4: parse twice into the target, 8: everything up front
  int delivery;       // fd::Mode
  unsigned long seed;
};
int parse_catalogue(int which, const Job &j);
int parse_other(int which, const Job &j);
