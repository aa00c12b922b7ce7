// A small stand-in for ezOptionParser (not installed here): the part of its
// interface that dreal/dreal_main.cc uses, with the upstream semantics.
#pragma once

#include <cctype>
#include <cerrno>
#include <cstdlib>
#include <deque>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

namespace ez {

class ezOptionValidator {
 public:
  ezOptionValidator(const char* type, const char* op = "", const char* list = "",
                    bool insensitive = false)
      : type_(type), op_(op), insensitive_(insensitive) {
    std::istringstream is(list);
    std::string item;
    while (std::getline(is, item, ',')) items_.push_back(fold(item));
  }
  bool isValid(const std::string& v) const {
    if (type_ == "t") {
      if (op_ != "in") return true;
      for (const auto& i : items_)
        if (i == fold(v)) return true;
      return false;
    }
    if (v.empty()) return false;
    char* end = nullptr;
    errno = 0;
    if (type_ == "d") {
      const double d = std::strtod(v.c_str(), &end);
      if (*end || std::isspace(static_cast<unsigned char>(v[0]))) return false;
      return op_ != "gt" || d > std::strtod(items_.at(0).c_str(), nullptr);
    }
    // "s4"
    const long l = std::strtol(v.c_str(), &end, 10);
    if (*end || errno || l > 2147483647L || l < -2147483647L - 1) return false;
    return op_ != "gt" || l > std::strtol(items_.at(0).c_str(), nullptr, 10);
  }

 private:
  std::string fold(std::string s) const {
    if (insensitive_)
      for (char& c : s) c = static_cast<char>(std::tolower(static_cast<unsigned char>(c)));
    return s;
  }
  std::string type_, op_;
  bool insensitive_;
  std::vector<std::string> items_;
};

class OptionGroup {
 public:
  std::string defaults, help;
  int expectArgs = 0;
  bool isRequired = false, isSet = false;
  std::vector<std::string> flags, args;  // one argument per occurrence
  ezOptionValidator* validator = nullptr;

  const std::string& text() const { return isSet && !args.empty() ? args[0] : defaults; }
  void getString(std::string& out) { out = text(); }
  void getDouble(double& out) { out = std::atof(text().c_str()); }
  void getInt(int& out) { out = std::atoi(text().c_str()); }
  void getULong(unsigned long& out) { out = std::strtoul(text().c_str(), nullptr, 0); }
};

class ezOptionParser {
 public:
  std::string overview, syntax, example, footer;
  std::vector<std::string*> firstArgs, unknownArgs, lastArgs;

  ezOptionParser() = default;
  ezOptionParser(const ezOptionParser&) = delete;
  ~ezOptionParser() {
    // Several groups may share one validator.
    std::map<ezOptionValidator*, int> v;
    for (auto& g : groups_) v[g->validator] = 1;
    for (auto& p : v) delete p.first;
  }

  void add(const char* defaults, bool required, int expectArgs, char /*delim*/,
           const char* help, const char* flag1, ezOptionValidator* v = nullptr) {
    add_group(defaults, required, expectArgs, help, {flag1}, v);
  }
  void add(const char* defaults, bool required, int expectArgs, char, const char* help,
           const char* flag1, const char* flag2, ezOptionValidator* v = nullptr) {
    add_group(defaults, required, expectArgs, help, {flag1, flag2}, v);
  }
  void add(const char* defaults, bool required, int expectArgs, char, const char* help,
           const char* flag1, const char* flag2, const char* flag3,
           ezOptionValidator* v = nullptr) {
    add_group(defaults, required, expectArgs, help, {flag1, flag2, flag3}, v);
  }
  void add(const char* defaults, bool required, int expectArgs, char, const char* help,
           const char* flag1, const char* flag2, const char* flag3, const char* flag4,
           ezOptionValidator* v = nullptr) {
    add_group(defaults, required, expectArgs, help, {flag1, flag2, flag3, flag4}, v);
  }

  void parse(int argc, const char* argv[]) {
    if (argc < 1) return;
    int first = 0;
    while (first < argc && !ids_.count(argv[first])) ++first;
    if (first == argc) {
      firstArgs.push_back(keep(argv[0]));
      for (int k = 1; k < argc; ++k) lastArgs.push_back(keep(argv[k]));
      return;
    }
    for (int k = 0; k < first; ++k) firstArgs.push_back(keep(argv[k]));
    int last = first;
    for (int i = first; i < argc; ++i) {
      const auto it = ids_.find(argv[i]);
      if (it == ids_.end()) continue;
      OptionGroup& g = *groups_[it->second];
      g.isSet = true;
      if (g.expectArgs) {
        ++i;
        if (i >= argc) {
          last = argc - 1;
          missing_.push_back(argv[i - 1]);
          break;
        }
        g.args.push_back(argv[i]);
      }
      last = i;
    }
    for (int i = first; i <= last; ++i) {
      const auto it = ids_.find(argv[i]);
      if (it != ids_.end()) {
        if (groups_[it->second]->expectArgs) ++i;
      } else {
        unknownArgs.push_back(keep(argv[i]));
      }
    }
    for (int k = last + 1; k < argc; ++k) lastArgs.push_back(keep(argv[k]));
  }

  int isSet(const char* name) const {
    const auto it = ids_.find(name);
    return it != ids_.end() && groups_[it->second]->isSet;
  }
  OptionGroup* get(const char* name) const {
    const auto it = ids_.find(name);
    return it == ids_.end() ? nullptr : groups_[it->second].get();
  }

  bool gotRequired(std::vector<std::string>& bad) const {
    for (const auto& g : groups_)
      if (g->isRequired && !g->isSet) bad.push_back(g->flags[0]);
    return bad.empty();
  }
  bool gotExpected(std::vector<std::string>& bad) const {
    for (const auto& m : missing_) bad.push_back(m);
    return bad.empty();
  }
  bool gotValid(std::vector<std::string>& bad_options, std::vector<std::string>& bad_args) const {
    for (const auto& g : groups_) {
      if (!g->validator) continue;
      for (const auto& a : g->args)
        if (!g->validator->isValid(a)) {
          bad_options.push_back(g->flags[0]);
          bad_args.push_back(a);
        }
    }
    return bad_options.empty();
  }

  void getUsage(std::string& usage) {
    usage += overview + "\n\nUSAGE: " + syntax + "\n\nOPTIONS:\n\n";
    for (const auto& g : groups_) {
      for (size_t i = 0; i < g->flags.size(); ++i) usage += (i ? ", " : "") + g->flags[i];
      if (g->expectArgs) usage += " ARG";
      usage += "\n\n  " + g->help + "\n\n";
    }
  }

 private:
  void add_group(const char* defaults, bool required, int expectArgs, const char* help,
                 std::vector<const char*> flags, ezOptionValidator* v) {
    std::unique_ptr<OptionGroup> g(new OptionGroup);
    g->defaults = defaults;
    g->isRequired = required;
    g->expectArgs = expectArgs;
    g->help = help;
    g->validator = v;
    for (const char* f : flags) {
      g->flags.push_back(f);
      ids_[f] = groups_.size();
    }
    groups_.push_back(std::move(g));
  }
  std::string* keep(const char* s) {
    store_.push_back(s);
    return &store_.back();
  }

  std::deque<std::string> store_;
  std::vector<std::unique_ptr<OptionGroup>> groups_;
  std::map<std::string, size_t> ids_;
  std::vector<std::string> missing_;
};

}  // namespace ez
