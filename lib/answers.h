// What the front ends print.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

#include <sys/mman.h>
#include <unistd.h>

namespace answers {
using std::string;
using std::vector;

struct Budget {};

// Everything written to the standard output while it exists.
struct Capture {
  int saved, file;
  std::streambuf* err;
  std::ostringstream errs;
  Capture() {
    std::cout.flush();
    fflush(stdout);
    saved = dup(1);
    file = memfd_create("out", 0);
    dup2(file, 1);
    err = std::cerr.rdbuf(errs.rdbuf());
  }
  string done() {
    std::cout.flush();
    fflush(stdout);
    string r;
    char buf[4096];
    lseek(file, 0, SEEK_SET);
    for (ssize_t n; (n = read(file, buf, sizeof buf)) > 0;) r.append(buf, n);
    return r;
  }
  ~Capture() {
    std::cout.flush();
    fflush(stdout);
    dup2(saved, 1);
    close(saved);
    close(file);
    std::cerr.rdbuf(err);
  }
};

inline vector<string> lines(const string& t) {
  vector<string> r;
  std::istringstream is(t);
  string l;
  while (std::getline(is, l)) r.push_back(l);
  return r;
}

// "[a, b]" or a number
inline bool parse_interval(const string& t, double* l, double* u) {
  const char* q = t.c_str();
  char* end;
  if (*q != '[') {
    *l = *u = strtod(q, &end);
    return end != q && *end == 0;
  }
  *l = strtod(q + 1, &end);
  if (end == q + 1 || end[0] != ',' || end[1] != ' ') return false;
  q = end + 2;
  *u = strtod(q, &end);
  return end != q && end[0] == ']' && end[1] == 0;
}
}  // namespace answers
