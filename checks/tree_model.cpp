// Control-flow nodes against an independent interpreter of their documented semantics.
#include "tree.h"

using namespace tree;

namespace
{
void Drive(pbt::Case& c, const GenOpts& opts, bool halts, bool next)
{
  Maker maker(c, opts);
  Spec spec = maker.Make();
  auto xml = SpecXml(spec);
  c.Identity(xml);
  PLOG(c) << xml;
  if (c.logging)
    for (size_t i = 0; i < spec.scripts.size(); ++i)
    {
      c.log << "leaf pid " << i << ":";
      for (auto& st : spec.scripts[i].steps)
      {
        c.log << " " << St(st.status);
        if (st.var >= 0) c.log << "(" << spec.vars[st.var].name << "=" << Json(MakeValue(spec.vars[st.var], st.val)) << ")";
      }
      if (spec.scripts[i].init_fail) c.log << " (initialisation failures: mask " << spec.scripts[i].init_fail << ")";
      c.log << "\n";
    }
  Model model(spec);
  Real real(c, spec);
  HubScope hub(&real);
  auto proc = ParseProcedureString(xml);
  PCHECK(c, proc, "could not parse the procedure");
  proc->Setup();
  PCHECK(c, proc->RootInstruction() && real.Map(*model.root, proc->RootInstruction()), "the instruction tree is not the one described");

  auto compare = [&](const std::string& what) {
    if (what != "halt")
      for (auto* v : {&model.ev, &real.ev})
        v->erase(std::remove_if(v->begin(), v->end(), [](const Event& e) { return e.t == Event::kHalted; }), v->end());
    auto want = Normal(model.ev), got = Normal(real.ev);
    PLOG(c) << what << " =>" << Show(real.ev) << "\n";
    if (want != got) c.Fail(what + ": expected:" + Show(want) + "\n  observed:" + Show(got));
    for (auto* m : model.nodes)
      if (m->real->GetStatus() != m->st)
        c.Fail(pbt::Str(what, ": status of #", m->id, " (", KindName(m->d->k), ") is ", St(m->real->GetStatus()), ", expected ", St(m->st)));
    if (proc->GetStatus() != model.root->st) c.Fail(what + ": procedure status differs from its root's");
    if (next)
    {
      std::vector<int> want_next, got_next;
      if (Model::Ready(model.root->st)) model.Next(*model.root, want_next);
      for (auto* i : GetNextInstructions(*proc)) got_next.push_back(real.Id(i));
      std::sort(want_next.begin(), want_next.end());
      std::sort(got_next.begin(), got_next.end());
      if (want_next != got_next)
      {
        std::string a, b;
        for (int i : want_next) a += " #" + std::to_string(i);
        for (int i : got_next) b += " #" + std::to_string(i);
        c.Fail(what + ": next instructions are" + b + ", expected" + a);
      }
    }
    model.ev.clear();
    real.ev.clear();
  };

  compare("after setup");
  int ops = 0, execs = 0, resets = 0, halt_ops = 0;
  std::set<ES> seen;
  while (ops < 60 && (ops == 0 || c.g.More(14)))
  {
    ++ops;
    model.now = real.now = ops;
    uint64_t r = c.g.Draw(20);
    bool fin = Model::Done(model.root->st);
    if (r == 19 || (fin && r > 8))
    {
      ++resets;
      model.ev.clear();
      model.Reset(*model.root);
      model.ResetVars();
      proc->Reset(real.ui);
      compare("reset");
      PCHECK(c, real.live == 0, "a user input request survived the reset");
    }
    else if (halts && r == 18)
    {
      ++halt_ops;
      model.Halt(*model.root);
      proc->Halt();
      compare("halt");
    }
    else if (r >= 15)
    {
      auto& v = spec.vars[c.g.Draw(spec.vars.size() - 3)];  // scalars only
      Val val{false, {v.elem == "bool" ? static_cast<int64_t>(c.g.Draw(2)) : c.g.Range(0, 3)}};
      model.ws[v.name] = val;
      PCHECK(c, proc->GetWorkspace().SetValue(v.name, MakeValue(v, val)), "could not set ", v.name);
      PLOG(c) << "set " << v.name << "\n";
    }
    else
    {
      ++execs;
      model.Exec(*model.root);
      proc->ExecuteSingle(real.ui);
      compare("tick");
    }
    seen.insert(model.root->st);
  }
  for (auto* m : model.nodes) c.Label(std::string("has ") + KindName(m->d->k));
  for (auto s : seen) c.Label("root " + St(s));
  if (resets) c.Label("with reset");
  if (halt_ops) c.Label("with halt");
  if (model.nodes.size() >= 3 && execs >= 2) c.NonTrivial();
}

void Plain(pbt::Case& c)
{
  GenOpts o;
  Drive(c, o, false, true);
}
void Reactive(pbt::Case& c)
{
  GenOpts o;
  o.focus = {kRSeq, kRFb, kSeq, kFb};
  o.user = false;
  Drive(c, o, false, true);
}
void Loops(pbt::Case& c)
{
  GenOpts o;
  o.focus = {kRepeat, kFor, kChoice, kListen, kUChoice};
  Drive(c, o, false, true);
}
void Halting(pbt::Case& c)
{
  GenOpts o;
  Drive(c, o, true, true);
}

#define RULE "the tree has at least three nodes and was ticked at least twice"
OAC_FACET("C08", "mixed", Plain, oac::Opts(60000, 2000000, RULE));
OAC_FACET("C08", "reactive", Reactive, oac::Opts(40000, 1500000, RULE));
OAC_FACET("C08", "loops", Loops, oac::Opts(40000, 1500000, RULE));
OAC_FACET("C08", "halting", Halting, oac::Opts(30000, 1000000, RULE));

struct Init
{
  Init() { pbt::SetWorkerInit([] { RegisterProbe(); }); }
} init;
}  // namespace
