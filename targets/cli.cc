// C37 the command line.
#include <csignal>
#include <cstdlib>
#include <fstream>
#include <optional>

#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include "answers.h"
#include "dreal/dr/run.h"
#include "dreal/dreal_main.h"
#include "dreal/smt2/driver.h"
#include "dreal/smt2/run.h"
#include "dreal/util/logging.h"
#include "pbt.h"

using namespace dreal;
using namespace answers;
using pbt::cat;
using pbt::Ctx;
using pbt::Src;
using std::string;
using std::vector;

int dreal_cli_main(int argc, const char* argv[]);

namespace {
struct Call {
  bool smt2;
  string file;
  Config config;
  bool scanning, parsing;
};
vector<Call> calls;
// What the file finally made of the configuration (.smt2 only).
std::optional<Config> final_config;
string stdin_text;

void note(bool smt2, const string& f, const Config& c, bool s, bool p) {
  calls.push_back(Call{smt2, f, c, s, p});
}
}  // namespace

// dreal_main.cc calls these instead of RunSmt2 and RunDr (see tools/build.py).
namespace dreal {
void CliRunSmt2(const string& f, const Config& c, bool s, bool p) {
  note(true, f, c, s, p);
  Config run{c};
  run.mutable_dump_theory_literals() = false;  // printed when the process ends
  RunSmt2(f, run, false, false);
  {
    Capture quiet;
    Smt2Driver d{Context{run}};
    if (f.empty())
      d.parse_string(stdin_text);
    else
      d.parse_file(f);
    final_config = d.mutable_context().config();
  }
}
void CliRunDr(const string& f, const Config& c, bool s, bool p) {
  note(false, f, c, s, p);
  Config run{c};
  run.mutable_dump_theory_literals() = false;
  RunDr(f, run, false, false);
}
}  // namespace dreal

namespace {
struct Scratch {
  string dir;
  vector<string> files;
  Scratch() {
    char t[] = "/tmp/dreal-cli-XXXXXX";
    dir = mkdtemp(t);
  }
  string put(const string& name, const string& text) {
    const string p = dir + "/" + name;
    std::ofstream(p) << text;
    files.push_back(p);
    return p;
  }
  ~Scratch() {
    for (const string& f : files) unlink(f.c_str());
    rmdir(dir.c_str());
  }
};
struct Stderr {  // the log
  int saved;
  Stderr() {
    fflush(stderr);
    saved = dup(2);
    const int n = open("/dev/null", O_WRONLY);
    dup2(n, 2);
    close(n);
  }
  ~Stderr() {
    fflush(stderr);
    dup2(saved, 2);
    close(saved);
  }
};
struct Stdin {
  std::istringstream in;
  std::streambuf* old;
  explicit Stdin(const string& t) : in(t), old(std::cin.rdbuf(in.rdbuf())) {}
  ~Stdin() { std::cin.rdbuf(old); }
};

struct Expect {
  double precision{Config::kDefaultPrecision};
  bool models{false}, compliant{false}, polytope{false}, forall_polytope{false},
      worklist{false}, local{false}, dump{false};
  int jobs{1};
  double rel{Config::kDefaultNloptFtolRel}, abs{Config::kDefaultNloptFtolAbs},
      maxtime{Config::kDefaultNloptMaxTime};
  int maxeval{Config::kDefaultNloptMaxEval}, phase{2};
  uint32_t seed{0};
};
string show(const Expect& e) {
  return cat("precision ", e.precision, " models ", e.models, " compliant ", e.compliant,
             " polytope ", e.polytope, " forall-polytope ", e.forall_polytope, " worklist ",
             e.worklist, " local ", e.local, " dump ", e.dump, " jobs ", e.jobs, " rel ", e.rel,
             " abs ", e.abs, " maxtime ", e.maxtime, " maxeval ", e.maxeval, " phase ", e.phase,
             " seed ", e.seed);
}
Expect of(const Config& c) {
  Expect e;
  e.precision = c.precision();
  e.models = c.produce_models();
  e.compliant = c.smtlib2_compliant();
  e.polytope = c.use_polytope();
  e.forall_polytope = c.use_polytope_in_forall();
  e.worklist = c.use_worklist_fixpoint();
  e.local = c.use_local_optimization();
  e.dump = c.dump_theory_literals();
  e.jobs = c.number_of_jobs();
  e.rel = c.nlopt_ftol_rel();
  e.abs = c.nlopt_ftol_abs();
  e.maxtime = c.nlopt_maxtime();
  e.maxeval = c.nlopt_maxeval();
  e.phase = static_cast<int>(c.sat_default_phase());
  e.seed = c.random_seed();
  return e;
}
}  // namespace

PBT_TARGET("C37", command_line, 4000,
           "random command lines (every documented option or alias, each at most "
           "once, in any order, mixed with the file name or --in) for random "
           "files with set-option commands, or with one mistake (no file, two "
           "files, a missing or unknown file, an invalid or missing argument); "
           "main is called in process: the configuration handed to the front "
           "end has exactly the values given and the defaults elsewhere, the "
           "file can change only what the command line left alone, the front "
           "end is the one --format or the extension asks for, the answer is "
           "printed in the format the options ask for, and the exit status is "
           "0 or 1 as due; non-trivial: at least three options given and one "
           "of them contradicted by the file, or a mistake") {
  Expect want;
  std::map<string, bool> given;
  vector<vector<string>> opts;
  auto flag = [&](const string& key, vector<string> names, bool* v) {
    if (!s.chance(1, 4)) return;
    opts.push_back({s.pick(names)});
    *v = true;
    given[key] = true;
  };
  auto value = [&](const string& key, vector<string> names, auto& v, auto conv,
                   const vector<string>& vals) {
    if (!s.chance(1, 5)) return;
    const string t = s.pick(vals);
    opts.push_back({s.pick(names), t});
    v = conv(t);
    given[key] = true;
  };
  auto dbl = [](const string& t) { return std::strtod(t.c_str(), nullptr); };
  auto num = [](const string& t) { return static_cast<int>(std::strtol(t.c_str(), nullptr, 10)); };
  auto uns = [](const string& t) { return static_cast<uint32_t>(std::strtoul(t.c_str(), nullptr, 10)); };
  flag("models", {"--produce-models", "--model"}, &want.models);
  flag("compliant", {"--smtlib2-compliant"}, &want.compliant);
  flag("polytope", {"--polytope"}, &want.polytope);
  flag("forall_polytope", {"--forall-polytope"}, &want.forall_polytope);
  flag("worklist", {"--worklist-fixpoint"}, &want.worklist);
  flag("local", {"--local-optimization"}, &want.local);
  flag("dump", {"--dump-theory-literals"}, &want.dump);
  bool scanning = false, parsing = false;
  flag("scanning", {"--debug-scanning"}, &scanning);
  flag("parsing", {"--debug-parsing"}, &parsing);
  value("precision", {"--precision"}, want.precision, dbl,
        {"0.01", "1e-3", ".25", "0.5", "1e-05", "0.0625", "3E-2"});
  value("jobs", {"--jobs", "-j"}, want.jobs, num, {"1", "2", "3", "4"});
  value("rel", {"--nlopt-ftol-rel"}, want.rel, dbl, {"0.1", "1e-9", "0.002"});
  value("abs", {"--nlopt-ftol-abs"}, want.abs, dbl, {"0.2", "1e-8", "0.003"});
  value("maxtime", {"--nlopt-maxtime"}, want.maxtime, dbl, {"0.5", "2", "0.125"});
  value("maxeval", {"--nlopt-maxeval"}, want.maxeval, num, {"1", "77", "100000"});
  value("phase", {"--sat-default-phase"}, want.phase, num, {"0", "1", "2", "3"});
  value("seed", {"--random-seed"}, want.seed, uns, {"0", "7", "4294967295", "123456789"});
  string level = "error";
  if (s.chance(1, 4)) {
    static const vector<string> ls = {"warning", "error", "critical", "off", "info"};
    level = s.chance(1, 10) ? (s.chance(1, 2) ? "debug" : "trace") : s.pick(ls);
    opts.push_back({"--verbose", level});
  }
  // The file.
  const bool smt2 = s.chance(2, 3);
  const double k = s.range(1, 99);
  const int shape = s.range(0, 3);
  const bool sat = shape < 2;
  Expect after = want;
  string text;
  int against = 0;
  if (smt2) {
    text = "(set-logic QF_NRA)\n";
    auto set = [&](const string& key, vector<string> names, bool* v) {
      if (!s.chance(1, 4)) return;
      const int n = s.weighted({3, 1}) + 1;
      for (int i = 0; i < n; ++i) {
        const bool b = s.chance(1, 2);
        text += "(set-option :" + s.pick(names) + " " + (b ? "true" : "false") + ")\n";
        if (given[key])
          against += !b;
        else
          *v = b;
      }
    };
    set("models", {"produce-models", "produce_models"}, &after.models);
    set("compliant", {"smtlib2-compliant", "smtlib2_compliant"}, &after.compliant);
    set("polytope", {"polytope"}, &after.polytope);
    set("forall_polytope", {"forall-polytope", "forall_polytope"}, &after.forall_polytope);
    set("worklist", {"worklist-fixpoint", "worklist_fixpoint"}, &after.worklist);
    set("local", {"local-optimization", "local_optimization"}, &after.local);
    if (s.chance(1, 4)) {
      static const vector<string> ps = {"0.125", "0.02", "0.004"};
      const string p = s.pick(ps);
      text += "(set-option :precision " + p + ")\n";
      if (given["precision"])
        ++against;
      else
        after.precision = dbl(p);
    }
    text += "(declare-fun x () Real [0.0, 10.0])\n(assert ";
    const string n = cat(static_cast<int>(k));
    if (shape == 0) text += "(= (* x x) " + n + ")";
    if (shape == 1) text += "(<= x " + n + ")";
    if (shape == 2) text += "(= (* x x) (+ 150 " + n + "))";
    if (shape == 3) text += "(>= x (+ 20 " + n + "))";
    text += ")\n(check-sat)\n";
    if (s.chance(1, 2)) text += "(exit)\n";
  } else {
    text = "var:\n[0, 10] x;\nctr:\n";
    const string n = cat(static_cast<int>(k));
    if (shape == 0) text += "x^2 = " + n + ";";
    if (shape == 1) text += "x <= " + n + ";";
    if (shape == 2) text += "x^2 = 150 + " + n + ";";
    if (shape == 3) text += "x >= 20 + " + n + ";";
    text += "\n";
  }
  Scratch dir;
  const bool from_stdin = s.chance(1, 5);
  static const vector<string> smt2_names = {"p.smt2", "a.b.smt2", "dr.smt2"};
  static const vector<string> dr_names = {"p.dr", "x.smt2.dr"};
  static const vector<string> odd = {"p", "p.txt", "p.smt2x", "p.SMT2", "p.dr~", "smt2", "dr"};
  const bool with_format = s.chance(1, 3) || (from_stdin && !smt2);
  bool plain_name = true;
  string name = s.pick(smt2 ? smt2_names : dr_names);
  if (with_format) {
    const bool automatic = !(from_stdin && !smt2) && s.chance(1, 4);
    opts.push_back({"--format", automatic ? "auto" : smt2 ? "smt2" : "dr"});
    if (!automatic && s.chance(2, 3)) {
      // The format wins over the extension.
      name = s.chance(1, 2) ? s.pick(odd) : s.pick(smt2 ? dr_names : smt2_names);
      plain_name = false;
    }
  }
  enum { kNone, kNoFile, kTwoFiles, kMissing, kExtension, kInvalid, kNoArgument, kDirectory, kInfo };
  int mistake = s.chance(3, 4) ? kNone : s.range(1, 8);
  if (mistake == kExtension && (with_format || from_stdin)) mistake = kNone;
  if ((mistake == kMissing || mistake == kDirectory || mistake == kNoFile) && from_stdin) mistake = kNone;
  if (mistake == kExtension) name = s.pick(odd);
  string path = from_stdin ? "" : dir.put(name, text);
  if (mistake == kMissing) path = dir.dir + "/none." + (smt2 ? "smt2" : "dr");
  if (mistake == kDirectory) path = dir.dir;
  if (from_stdin) {
    opts.push_back({"--in"});
  } else if (mistake != kNoFile) {
    opts.push_back({path});
  }
  int copies = 0;
  if (mistake == kTwoFiles)
    for (copies = from_stdin ? 2 : 1; copies > 0; --copies) opts.push_back({dir.put("q.smt2", text)});
  if (mistake == kInvalid) {
    static const vector<vector<string>> bad = {
        {"--precision", "0"},       {"--precision", "-0.5"},     {"--precision", "abc"},
        {"--nlopt-ftol-rel", "0"},  {"--nlopt-ftol-abs", "-1"},  {"--nlopt-maxeval", "0"},
        {"--nlopt-maxeval", "-5"},  {"--nlopt-maxtime", "0.0"},  {"--nlopt-maxtime", "x"},
        {"--format", "smt"},        {"--format", "drx"},         {"--verbose", "loud"}};
    const vector<string> b = s.pick(bad);
    vector<vector<string>> rest;
    for (auto& o : opts)
      if (o[0] != b[0]) rest.push_back(o);
    opts = rest;
    opts.push_back(b);
  }
  int expect = mistake == kNone || mistake == kInfo ? 0 : 1;
  if (mistake == kInfo) {
    static const vector<string> info = {"-h", "-help", "--help", "--usage", "-v", "--version"};
    opts.push_back({s.pick(info)});
  }
  const string told = mistake == kInfo ? opts.back()[0] : "";
  // Any order; an option without its argument can only be the last one.
  for (size_t i = opts.size(); i > 1; --i) std::swap(opts[i - 1], opts[s.draw(i)]);
  vector<string> args{"dreal"};
  for (auto& o : opts)
    for (auto& a : o) args.push_back(a);
  if (mistake == kNoArgument) {
    static const vector<string> with = {"--precision", "--nlopt-ftol-rel", "--nlopt-maxeval", "--format"};
    const string w = s.pick(with);
    bool used = false;
    for (auto& a : args) used = used || a == w;
    if (used) c.discard();
    args.push_back(w);
  }
  string shown;
  for (auto& a : args) {
    const size_t at = a.find(dir.dir);
    shown += (shown.empty() ? "" : " ") + (at == 0 ? "DIR" + a.substr(dir.dir.size()) : a);
  }
  c.describe(shown + "\nwith " + (from_stdin ? "input" : name) + ":\n" + text);
  static const vector<string> kinds = {"fine", "no file", "two files", "missing file", "extension",
                                       "invalid argument", "missing argument", "directory", "information"};
  c.label(kinds[mistake]);
  vector<const char*> argv;
  for (auto& a : args) argv.push_back(a.c_str());
  argv.push_back(nullptr);

  calls.clear();
  final_config.reset();
  stdin_text = text;
  const auto old_level = log()->level();
  log()->set_level(spdlog::level::info);
  const auto old_int = std::signal(SIGINT, SIG_DFL);
  string out, err, thrown;
  int status = -1;
  spdlog::level::level_enum got_level;
  {
    Stderr log_quiet;
    Stdin in(from_stdin ? text : "");
    Capture cap;
    try {
      status = dreal_cli_main(static_cast<int>(args.size()), argv.data());
    } catch (const std::exception& e) {
      thrown = e.what();
    }
    out = cap.done();
    err = cap.errs.str();
    got_level = log()->level();
  }
  log()->set_level(old_level);
  std::signal(SIGINT, old_int);
  c.check(thrown.empty(), "it threw " + thrown);
  c.check(status == expect, cat("the exit status is ", status, ": ", err));
  if (mistake == kInfo) {
    c.check(calls.empty(), "it ran although asked for information");
    const bool version = told == "-v" || told == "--version";
    c.check(!version || (out.rfind("dReal v", 0) == 0 && lines(out).size() == 1),
            "the version is printed as " + out);
    c.check(version || (err.find("--precision") != string::npos && err.find("--format") != string::npos),
            "the usage is printed as " + err);
  } else if (mistake != kNone) {
    c.check(calls.empty(), "it ran in spite of the mistake");
    c.check(out.empty(), "it answered " + out);
    c.check(!err.empty(), "the mistake is not reported");
  } else {
    c.check(calls.size() == 1, cat(calls.size(), " runs: ", err));
    const Call& call = calls[0];
    c.check(call.smt2 == smt2, "the wrong front end was chosen");
    c.check(call.file == path, "the file is taken to be " + call.file);
    c.check(call.scanning == scanning && call.parsing == parsing, "the debug options were lost");
    c.check(show(of(call.config)) == show(want),
            "the configuration is " + show(of(call.config)) + " instead of " + show(want));
    static const std::map<string, spdlog::level::level_enum> levels = {
        {"trace", spdlog::level::trace},       {"debug", spdlog::level::debug},
        {"info", spdlog::level::info},         {"warning", spdlog::level::warn},
        {"error", spdlog::level::err},         {"critical", spdlog::level::critical},
        {"off", spdlog::level::off}};
    c.check(got_level == levels.at(level), "the log level is not " + level);
    if (smt2)
      c.check(final_config && show(of(*final_config)) ==
                                  [&] {
                                    Expect e = after;
                                    e.dump = false;
                                    return show(e);
                                  }(),
              "after the file the configuration is " + show(of(*final_config)) + " instead of " + show(after));
    // Which options the command line decided.
    {
      Config x{call.config};
      x.mutable_precision().set_from_file(0.75);
      x.mutable_produce_models().set_from_file(!want.models);
      x.mutable_smtlib2_compliant().set_from_file(!want.compliant);
      x.mutable_use_polytope().set_from_file(!want.polytope);
      x.mutable_use_polytope_in_forall().set_from_file(!want.forall_polytope);
      x.mutable_use_worklist_fixpoint().set_from_file(!want.worklist);
      x.mutable_use_local_optimization().set_from_file(!want.local);
      x.mutable_dump_theory_literals().set_from_file(!want.dump);
      x.mutable_number_of_jobs().set_from_file(17);
      x.mutable_nlopt_ftol_rel().set_from_file(0.75);
      x.mutable_nlopt_ftol_abs().set_from_file(0.75);
      x.mutable_nlopt_maxtime().set_from_file(0.75);
      x.mutable_nlopt_maxeval().set_from_file(17);
      x.mutable_random_seed().set_from_file(17);
      const Expect y = of(x);
      auto same = [&](const char* key, bool kept) {
        c.check(kept == given[key], cat("a file can ", kept ? "not " : "", "override ", key,
                                        given[key] ? ", given" : ", not given", " on the command line"));
      };
      same("precision", y.precision == want.precision);
      same("models", y.models == want.models);
      same("compliant", y.compliant == want.compliant);
      same("polytope", y.polytope == want.polytope);
      same("forall_polytope", y.forall_polytope == want.forall_polytope);
      same("worklist", y.worklist == want.worklist);
      same("local", y.local == want.local);
      same("dump", y.dump == want.dump);
      same("jobs", y.jobs == want.jobs);
      same("rel", y.rel == want.rel);
      same("abs", y.abs == want.abs);
      same("maxtime", y.maxtime == want.maxtime);
      same("maxeval", y.maxeval == want.maxeval);
      same("seed", y.seed == want.seed);
    }
    vector<string> ls = lines(out);
    if (level == "info" || level == "debug" || level == "trace") {
      // statistics come with these levels
      vector<string> rest;
      for (auto& l : ls)
        if (l.rfind("Total", 0) != 0) rest.push_back(l);
      ls = rest;
    }
    c.check(!ls.empty(), "no answer: " + err);
    if (!sat) {
      c.check(ls.size() == 1 && ls[0] == "unsat", "answer: " + out);
    } else if (smt2 && after.compliant) {
      c.check(ls.size() == 1 && ls[0] == "delta-sat", "answer: " + out);
    } else {
      std::ostringstream yes;
      yes << "delta-sat with delta = " << after.precision;
      c.check(ls[0] == yes.str(), "answer: " + out);
      if (after.models) {
        double lo, hi;
        c.check(ls.size() >= 2 && ls[1].rfind("x : ", 0) == 0 && parse_interval(ls[1].substr(4), &lo, &hi),
                "answer: " + out);
        c.check(0 <= lo && lo <= hi && hi <= 10, "answer: " + out);
      } else {
        c.check(ls.size() == 1, "answer: " + out);
      }
    }
    c.label(smt2 ? "smt2" : "dr");
    if (!plain_name) c.label("format against extension");
    if (from_stdin) c.label("--in");
    if (against) c.label("file against command line");
  }
  c.count();
  if ((opts.size() > 3 && against) || mistake) c.nontrivial(c.desc_);
}
