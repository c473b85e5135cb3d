// C01: vocabularies, exhaustively over a wide range of values and over neighbours of every text
#include "drv.h"
#include <algorithm>
#include <sup/oac-tree/execution_status.h>
#include <sup/oac-tree/job_states.h>
#include <sup/oac-tree/log_severity.h>
using namespace sup::oac_tree;
using drv::Case; using drv::Equal; using drv::S;

int main(int argc, char** argv)
{
  return drv::Main(argc, argv, [] {
    const std::vector<std::string> st = {"Not started", "Not finished", "Running", "Success", "Failure"};
    const std::vector<std::string> js = {"Initial", "Paused", "Stepping", "Running", "Success", "Failure", "Halted"};
    const std::vector<std::string> sv = {"EMERGENCY", "ALERT", "CRITICAL", "ERROR", "WARNING", "NOTICE", "INFO", "DEBUG", "TRACE"};
    std::vector<int> values;
    for (int i = -70000; i <= 70000; ++i) values.push_back(i);
    for (int b = 16; b < 31; ++b)
      for (int d = -12; d <= 12; ++d) { values.push_back((1 << b) + d); values.push_back(-(1 << b) + d); }
    values.push_back(2147483647); values.push_back(-2147483647 - 1);
    // the same calls more than once and in other orders: answers must not depend on history
    for (int round = 0; round < 3; ++round)
    {
      if (round == 1) std::reverse(values.begin(), values.end());
      if (round == 2) std::shuffle(values.begin(), values.end(), S().rng);
      for (int v : values)
      {
        S().group = "status";
        Case(std::to_string(v));
        auto s = static_cast<ExecutionStatus>(v);
        const bool fin = v == 3 || v == 4;
        Equal(StatusToString(s), v >= 0 && v < 5 ? st[v] : std::string("Unknown status"), "StatusToString");
        Equal(IsFinishedStatus(s), fin, "IsFinishedStatus");
        Equal(NeedsExecute(s), !fin, "NeedsExecute");
        Equal(ReadyForExecute(s), v == 0 || v == 1, "ReadyForExecute");
        Equal(IsExecutingStatus(s), v == 1 || v == 2, "IsExecutingStatus");
        S().group = "job state";
        auto j = static_cast<JobState>(v);
        Equal(ToString(j), v >= 0 && v < 7 ? js[v] : std::string("Unknown JobState"), "ToString(JobState)");
        Equal(IsFinishedJobState(j), v == 4 || v == 5 || v == 6, "IsFinishedJobState");
        S().group = "severity";
        Equal(log::SeverityString(v), v >= 0 && v < 9 ? sv[v] : std::string("UNKNOWN"), "SeverityString");
      }
    }
    S().group = "severity text";
    std::set<std::string> texts = {"", " ", "UNKNOWN", "FATAL", "WARN", "Emergency", "NUMBER_OF_LOG_LEVELS", "0", "3", "none"};
    for (auto& t : sv)
    {
      texts.insert(t);
      for (size_t i = 0; i <= t.size(); ++i)
      {
        texts.insert(t.substr(0, i));
        texts.insert(t.substr(i));
        for (int c = 0; c < 256; ++c)
        {
          texts.insert(t.substr(0, i) + char(c) + t.substr(i));
          if (i < t.size()) texts.insert(t.substr(0, i) + char(c) + t.substr(i + 1));
        }
        if (i < t.size()) texts.insert(t.substr(0, i) + t.substr(i + 1));
      }
      auto low = t; for (auto& c : low) c = char(tolower(c)); texts.insert(low);
      texts.insert(t + t); texts.insert(t + "," + t); texts.insert(std::string(t.rbegin(), t.rend()));
      for (auto& u : sv) texts.insert(t + u);
      texts.insert(t + std::string(300, ' ')); texts.insert(std::string(1, '\0') + t);
    }
    for (int i = 0; i < (S().deep ? 200000 : 20000); ++i)
    {
      std::string t;
      for (auto n = drv::Rnd(12); n > 0; --n) t += char('A' + drv::Rnd(26));
      texts.insert(t);
    }
    for (int round = 0; round < 2; ++round)
      for (auto& t : texts)
      {
        Case(t);
        int want = 9;
        for (int i = 0; i < 9; ++i) if (t == sv[i]) want = i;
        Equal(int(log::GetSeverityFromString(t)), want, "GetSeverityFromString");
      }
  });
}
