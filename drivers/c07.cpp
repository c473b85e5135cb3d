// C07, C08: sequences and fallbacks with scripted children, each tick against the documented combination
#include "lib.h"
using namespace lib;

static bool g_reactive;

static void Run(const std::string& type, bool seq, bool reactive, int n, const std::function<int(int)>& pick, int ticks)
{
  Tree t(type, n);
  const ES good = seq ? ES::SUCCESS : ES::FAILURE, bad = seq ? ES::FAILURE : ES::SUCCESS;
  std::string text = type + " of " + std::to_string(n) + ": ";
  ES last = ES::NOT_STARTED;
  for (int j = 0; j < ticks; ++j)
  {
    auto before = Stats(t.kids);
    int f = 0;
    while (f < n && before[f] == good) ++f;
    bool ticked = f < n && !Fin(before[f]) && !Fin(last);
    int o = pick(j);
    bool fail_init = o >= 4 && ticked && before[f] == ES::NOT_STARTED;
    ES out = fail_init ? ES::FAILURE : Outcome(o);
    if (ticked)
      text += "child " + std::to_string(f) + (fail_init ? " fails to start; " : std::string(" returns ") + N(out) + "; ");
    Case(text);
    for (auto k : t.kids) { k->run = [out](Kid&) { return out; }; k->init_ok = !fail_init; }
    // announced
    auto next = t.root->NextInstructions();
    bool ann = f < n && Ready(before[f]);
    Equal(next.size(), size_t(ann ? 1 : 0), "number of instructions announced as next");
    if (ann && next.size() == 1) Check(next[0] == t.kids[f], "another child is announced as next");
    R().Clear();
    t.root->ExecuteSingle(t.ui, t.ws);
    auto after = Stats(t.kids);
    std::vector<int> wt, wr;
    if (ticked && !fail_init) wt.push_back(f);
    bool running = ticked && reactive && out == ES::RUNNING;
    if (running) for (int i = 0; i < n; ++i) if (i != f) wr.push_back(i);
    Same(R().Of('t'), wt, "children executed");
    Same(R().Of('r'), wr, "children reset");
    Same(R().Of('h'), {}, "children halted");
    if (Fin(last)) { Status(t.root->GetStatus(), last, "status of a finished instruction"); continue; }
    auto model = before;
    if (ticked) model[f] = out;
    if (running) for (int i : wr) model[i] = ES::NOT_STARTED;
    if (model != after) Fail("statuses of the children: got " + Names(after) + ", expected " + Names(model));
    ES want = good;
    for (int i = 0; i < n; ++i)
      if (model[i] != good) { want = Ready(model[i]) ? ES::NOT_FINISHED : model[i]; break; }
    if (running) want = ES::RUNNING;
    Status(t.root->GetStatus(), want, "status");
    last = t.root->GetStatus();
    (void)bad;
    if (S().fails) return;
    if (Fin(last) && Rnd(3) == 0)
    {
      text += "reset; ";
      R().Clear();
      t.root->Reset(t.ui);
      Equal(R().Of('r').size(), size_t(n), "children reset");
      last = ES::NOT_STARTED;
    }
  }
}

int main(int argc, char** argv)
{
  return drv::Main(argc, argv, [&] {
    g_reactive = std::string(argv[0]).find("c08") != std::string::npos;
    for (int i = 1; i < argc; ++i) if (std::string(argv[i]) == "--reactive") g_reactive = true;
    for (bool seq : {true, false})
    {
      std::string type = g_reactive ? (seq ? "ReactiveSequence" : "ReactiveFallback") : (seq ? "Sequence" : "Fallback");
      S().group = "all outcomes of up to four ticks, " + type;
      for (int n = 0; n <= 4; ++n)
        for (int code = 0; code < 625 && !S().fails; ++code)
          Run(type, seq, g_reactive, n, [code](int j) { int c = code; for (; j > 0; --j) c /= 5; return c % 5; }, 4);
      S().group = "random outcomes, " + type;
      for (int i = 0; i < (S().deep ? 12000 : 2500) && !S().fails; ++i)
      {
        int bias = int(Rnd(3)), good = seq ? 0 : 1;
        Run(type, seq, g_reactive, 1 + int(Rnd(i % 20 ? 5 : 12)),
            [bias, good](int) { return bias && Rnd(2) ? good : bias == 2 && Rnd(2) ? 3 : int(Rnd(5)); }, 4 + int(Rnd(16)));
      }
    }
  });
}
